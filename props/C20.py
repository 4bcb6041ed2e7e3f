"""CCAirfoil: lookups, their slopes, the two scans and the constructor, with
scipy's bivariate splines by contract."""
from pymods import *
import kern
import bemstub
F = "ccblade.py:CCAirfoil."
TRUSTED = ["scipy.interpolate.RectBivariateSpline and bisplev by contract: opaque differentiable function of the clamped point, constant beyond the data, linear between two Reynolds numbers, "
           "independent of the Reynolds number when both columns are the same, derivatives of order below the degree only", "numpy by lib/npshim.py; argmax by its documented contract"]
ASSUMPTIONS = ["three or more increasing angles of attack, increasing Reynolds numbers", "the smoothing spline reproduces its data (checked by the runtime contracts)", "real arithmetic"]
n_, m_, j_, i_, q_ = ivar("n"), ivar("m"), ivar("j"), ivar("i"), ivar("q")
al, Re = sym("al"), sym("Re")


def tasks(tier):
    out = []
    for re_ in ("empty", "one", "two", "more"):
        for cm in (False, True):
            t = "%s Reynolds numbers%s" % (re_, ", moments" if cm else "")
            out += [(t + ": constructor and evaluate", lambda R, a=(re_, cm): values(R, *a)), (t + ": derivatives", lambda R, a=(re_, cm): slopes(R, *a))]
    out += [("flat data: constructor and evaluate", lambda R: values(R, "one", True, True))]
    return out + [("max_eff", lambda R: scan(R, "max_eff")), ("awayfromstall", lambda R: scan(R, "awayfromstall")), ("initFromAerodynFile", from_file)]


def table(nm):
    return lambda idx: fn("data." + nm, *[aff_node(q) for q in idx])


for _k, _r in dict(alpha=(-180, 180), cl=(-1, 1.5), cd=(.01, .5), cm=(-.2, .1), Re=(1, 9)).items():
    ir.UF["data." + _k] = (lambda lo, hi, t: lambda *a: mpf(random.Random("%s/%s" % (t, [mpmath.nstr(x, 12) for x in a])).uniform(lo, hi)))(_r[0], _r[1], _k)


class Knots:
    def __init__(self, S, d):
        self.S, self.d = S, d

    def __getitem__(self, k):
        if k == 0 or k == -1:
            return V(self.S.ends[self.d][k])
        raise Unsupported("knot")

    def min(self):
        return self[0]

    def max(self):
        return self[-1]


class Coef:
    def __init__(self, S):
        self.S = S


def small(k):
    for q in range(1, 6):
        if k.is_const() and k.c == q or not k.is_const() and truth(cmp_("==", k, q)):
            return aff(q)
    return k


class Spline:
    """RectBivariateSpline by contract"""

    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        x, y, z = pyex.asarr(x), pyex.asarr(y), pyex.asarr(z)
        if bbox is not None:
            raise Unsupported("bounding box")
        if z.ndim != 2 or not (same_dim(z.dims[0], x.dims[0]) and same_dim(z.dims[1], y.dims[0])):
            raise ValueError("dimension mismatch of the data")
        self.x, self.y, self.z, self.s = x.copy(), y.copy(), z.copy(), node(s)
        self.deg = tuple(small(dim(pyex.raw_int(k))) for k in (kx, ky))
        for k, d in zip(self.deg, (x.dims[0], y.dims[0])):
            if not (k.is_const() and 1 <= k.c <= 5 and ctx().entails_int("<", k, d)):
                raise ValueError("degree %r with %r points" % (k, d))
        S = pyex.MACH.splines
        S.append(self)
        self.no = num(len(S))
        self.ends = [{0: node(a[0]), -1: node(a[-1])} for a in (self.x, self.y)]
        for e in self.ends:
            cd = cmp_("<", e[0], e[-1])
            if not isinstance(cd, bool):
                ctx().assume(*cd)
        self.flat = same_dim(y.dims[0], aff(2)) and lift(self.z.at(j_, 0)) is lift(self.z.at(j_, 1))
        self.two = same_dim(y.dims[0], aff(2)) and self.deg[1].c == 1
        self.ready = True

    def __setattr__(self, k, v):
        if self.__dict__.get("ready"):
            raise Unsupported("spline attribute assigned")
        object.__setattr__(self, k, v)

    @property
    def tck(self):
        return (Knots(self, 0), Knots(self, 1), Coef(self))

    @property
    def degrees(self):
        return tuple(k.c for k in self.deg)

    def place(self, a, d):
        """the point at which the spline is evaluated, and whether it is beyond the data"""
        lo, hi = self.ends[d][0], self.ends[d][-1]
        if not pyex.MACH.clamp:
            return a, False
        if truth(cmp_("<", a, lo)):
            return lo, True
        if truth(cmp_("<", hi, a)):
            return hi, True
        return a, False

    def term(self, a, r, dx=0, dy=0):
        """derivative of the spline's function (constant beyond the data excluded)"""
        if self.flat:
            return ZERO if dy else fn("spline%d0" % dx, self.no, a)
        f = lambda r, dy=0: fn("spline%d%d" % (dx, dy), self.no, a, r)
        if self.two and pyex.MACH.clamp:
            lo, hi = self.ends[1][0], self.ends[1][-1]
            d = (f(hi) - f(lo)) / (hi - lo)
            return d if dy == 1 else ZERO if dy else f(lo) + (r - lo) * d
        return f(r, dy)

    def at(self, a, r, dx=0, dy=0):
        dx, dy = int(dx), int(dy)
        if isinstance(a, (A, list)) or isinstance(r, (A, list)):
            a, r = pyex.asarr(a), pyex.asarr(r)
            sh = npshim.bshape(a.dims, r.dims)
            x, y = npshim.broadcast(a, sh), npshim.broadcast(r, sh)
            return new(sh, lambda idx: node(self.at(V(lift(x(idx))), V(lift(y(idx))), dx, dy)))
        if dx and dx >= self.deg[0].c or dy and dy >= self.deg[1].c:
            raise ValueError("derivative of order not below the degree")
        a, r = node(a), node(r)
        a, _ = self.place(a, 0)
        if not self.flat:
            r, _ = self.place(r, 1)
        return V(self.term(a, r, dx, dy))

    def ev(self, x, y, dx=0, dy=0):
        return self.at(x, y, dx, dy)

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        if grid:
            raise Unsupported("spline on a grid")
        return self.at(x, y, dx, dy)

    def slope(self, a, r, d):
        """derivative of what ev returns, by axis d"""
        (a, oa), (r, or_) = self.place(a, 0), ((r, False) if self.flat else self.place(r, 1))
        if (oa, or_)[d]:
            return ZERO
        return self.term(a, r, *((1, 0) if d == 0 else (0, 1)))


def bisplev(x, y, tck, dx=0, dy=0):
    tx, ty, c, kx, ky = tck
    S = c.S
    if not (isinstance(tx, Knots) and isinstance(ty, Knots) and (tx.S, tx.d, ty.S, ty.d) == (S, 0, S, 1) and (kx, ky) == S.degrees):
        return V(fn("bisplev.mixed", node(x), node(y)))
    return S.at(x, y, dx, dy)


class FakeAirfoil:
    @classmethod
    def initFromAerodynFile(cls, name):
        r = cls()
        r.name = name
        return r

    def createDataGrid(self):
        return tuple(Piece(self.name, k) for k in ("alpha", "Re", "cl", "cd", "cm"))


class Piece:
    def __init__(self, name, k):
        self.id = (name, k)


def module():
    m = bemstub.modules({})
    m["scipy.interpolate"] = pyex.FakeModule("scipy.interpolate", dict(RectBivariateSpline=Spline, bisplev=bisplev))
    m["scipy"].__dict__["interpolate"] = m["scipy.interpolate"]
    m["ccblade.airfoilprep"] = pyex.FakeModule("ccblade.airfoilprep", dict(Airfoil=FakeAirfoil))
    m["ccblade"].__dict__["airfoilprep"] = m["ccblade.airfoilprep"]
    pyex.MACH.splines, pyex.MACH.clamp = [], False
    return load(src("ccblade.py"), "ccblade.ccblade", m)


def ranges(k):
    return {"al": (-3, 3), "Re": (1, 9), "margin": (0, 8)}.get(k, (.2, 1.5))


def hyps(re_):
    m = {"empty": [cmp_("==", m_, 0)], "one": [cmp_("==", m_, 1)], "two": [cmp_("==", m_, 2)], "more": [cmp_("<=", 3, m_)]}[re_]
    c = base(ranges)
    c.use_z3_real = False
    for h in [cmp_("<=", 3, n_), cmp_("<=", 0, j_), cmp_("<", j_, n_), cmp_("<=", 0, i_)] + m + ([cmp_("<", i_, m_)] if re_ != "empty" else []):
        if not isinstance(h, bool):
            c.assume(*h)
    return c


def arr(nm, dims):
    a = new(dims, lambda idx: table(nm)(idx))
    a.root.owner = nm
    return a


def mdim(re_):
    return {"empty": aff(0), "one": aff(1), "two": aff(2), "more": m_}[re_]


def make(M, re_, cm, flat1=False):
    cols = aff(1) if re_ == "empty" else mdim(re_)
    sh = (n_,) if flat1 else (n_, cols)
    d = {k: arr(k, sh) for k in ("cl", "cd", "cm")}
    a = M["CCAirfoil"](arr("alpha", (n_,)), arr("Re", (mdim(re_),)), d["cl"], d["cd"], **(dict(cm=d["cm"]) if cm else {}))
    return a


def rad(x):
    return x * PI / 180


def fitted(nm, re_, flat1):
    """the spline that fits the data of that name"""
    for S in pyex.MACH.splines:
        k = i_ if mdim(re_).is_const() is False or mdim(re_).c > 1 else aff(0)
        want = table(nm)((j_,) if flat1 else (j_, k))
        ok = lift(S.z.at(j_, k)) is want
        if re_ in ("empty", "one"):
            ok = ok and lift(S.z.at(j_, 1)) is want and same_dim(S.y.dims[0], aff(2))
        else:
            ok = ok and same_dim(S.y.dims[0], mdim(re_)) and lift(S.y.at(i_)) is table("Re")((i_,))
        if ok and same_dim(S.x.dims[0], n_) and ir_same(lift(S.x.at(j_)), rad(table("alpha")((j_,)))):
            return S
    return None


def ir_same(a, b):
    import obl
    from nf import is_zero
    return a is b or is_zero(a - b, Env({}, obl._AnyInt(), {}, 7), 20000, 5.0)


def snap(a):
    return {k: (v, v.root.g if isinstance(v, A) else None) for k, v in a.__dict__.items()}


def same_state(a, s):
    return set(a.__dict__) == set(s) and all(a.__dict__[k] is v and (g is None or v.root.g is g) for k, (v, g) in s.items()) and not pyex.MACH.foreign


SMOOTH = dict(cl=num(Fr(1, 10)), cd=num(Fr(1, 1000)), cm=num(Fr(1, 10000)))


def values(R, re_, cm, flat1=False):
    base_ = hyps(re_)

    def run():
        a = make(module(), re_, cm, flat1)
        S = {k: fitted(k, re_, flat1) for k in ("cl", "cd", "cm")[:3 if cm else 2]}
        s0 = snap(a)
        pyex.MACH.clamp = True
        out = []
        if None not in S.values():
            for q in (False, True):
                r = a.evaluate(V(al), V(Re), return_cm=q)
                ks = ("cl", "cd", "cm") if q and cm else ("cl", "cd")
                out.append((q, len(r) == len(ks), [(k, node(g), node(S[k].ev(V(al), V(Re)))) for k, g in zip(ks, r)]))
        return {k: v is not None for k, v in S.items()}, [(k, v.s) for k, v in S.items() if v], out, same_state(a, s0)
    for c, (S, sm, out, fr), m in runs(run, base_):
        for k, ok in S.items():
            R.eq("a spline fits the %s data over angles in radians and Reynolds numbers" % k, num(int(ok)), ONE, c, F + "__init__")
        for k, s in sm:
            R.eq("smoothing of " + k, s, SMOOTH[k], c, F + "__init__")
        R.eq("airfoil unchanged by evaluate", num(int(fr)), ONE, c, F + "evaluate")
        for q, ok, gw in out:
            R.eq("number of coefficients, return_cm=%s" % q, num(int(ok)), ONE, c, F + "evaluate")
            for k, g, w in gw:
                R.eq("%s, return_cm=%s" % (k, q), g, w, c, F + "evaluate")


def slopes(R, re_, cm):
    base_ = hyps(re_)

    def run():
        a = make(module(), re_, cm)
        S = [fitted(k, re_, False) for k in ("cl", "cd")]
        if None in S:
            return None
        s0 = snap(a)
        pyex.MACH.clamp = True
        want = [s.slope(al, Re, d) for s in S for d in (0, 1)]
        # the slopes are those of what evaluate returns
        if any(node(g) is not node(s.ev(V(al), V(Re))) for g, s in zip(a.evaluate(V(al), V(Re)), S)):
            return None
        r = a.derivatives(V(al), V(Re))
        return len(r) == 4, [node(x) for x in r], want, same_state(a, s0)
    for c, res, m in runs(run, base_):
        if res is None:
            R.eq("splines of lift and drag looked up by evaluate", ZERO, ONE, c, F + "evaluate")
            continue
        ok, got, want, fr = res
        t = "[%s] " % " ".join(("" if q else "!") + h.op for h, q in c.hyps[len(base_.hyps):] if h.kind == "r")
        R.eq(t + "four slopes", num(int(ok)), ONE, c, F + "derivatives")
        R.eq(t + "airfoil unchanged", num(int(fr)), ONE, c, F + "derivatives")
        for k, g, w in zip(("dcl/dalpha", "dcl/dRe", "dcd/dalpha", "dcd/dRe"), got, want):
            R.eq(t + k, g, w, c, F + "derivatives")


def scan(R, what):
    base_ = hyps("more")
    for h in (cmp_("<=", 0, q_), cmp_("<", q_, 201)):
        base_.assume(*h)
    grid = lambda q: rad(-20 + 60 * aff_node(aff(q)) / 200)
    mg = sym("margin")

    def run():
        a = make(module(), "more", False)
        S = [fitted(k, "more", False) for k in ("cl", "cd")]
        if None in S:
            return None
        s0 = snap(a)
        val = lambda k, x: node(S[k].ev(V(x), V(Re)))
        near = [pyex.dim(pyex.raw_int(npshim.NP.argmin(abs(a.alpha - V(rad(num(e))))))) for e in (-20, 40)]
        coarse = not truth(cmp_("<", *near))
        r = [node(x) for x in (a.max_eff(V(Re)) if what == "max_eff" else a.awayfromstall(V(Re), V(mg)))]
        E = (lambda q: val(0, grid(q)) / val(1, grid(q))) if what == "max_eff" else (lambda q: val(0, grid(q)))
        x = r[1]
        shift = ZERO if what == "max_eff" else rad(mg)
        eqs = [("ratio", r[0], r[2] / r[3]), ("lift at that angle", r[2], val(0, x)), ("drag at that angle", r[3], val(1, x))]
        if coarse:
            return eqs + [("angle of a table with one row near both ends of the scan", x, ZERO)], same_state(a, s0)
        k = [v for v in getattr(pyex.MACH, "args", {}).values() if v[1] == ">" and same_dim(v[3], aff(201))]
        k = [v for v in k if set(ivars(x)) == set(v[0].vars())] or k
        if k:
            k = k[0]
            eqs += [("angle of the scan less the margin", x + shift, grid(k[0])), ("the scan compares what is to be largest", lift(k[2](q_)), E(q_))]
        else:
            eqs.append(("angle found by comparing all scanned angles", ZERO, ONE))
        return eqs, same_state(a, s0)
    some = False
    for c, res, m in runs(run, base_):
        if res is None:
            R.eq("splines of lift and drag", ZERO, ONE, c, F + "__init__")
            continue
        eqs, fr = res
        some = some or any(k == "angle of the scan less the margin" for k, _, _ in eqs)
        R.eq("airfoil unchanged", num(int(fr)), ONE, c, F + what)
        for k, g, w in eqs:
            R.eq(k, g, w, c, F + what)
    R.eq("a scan takes place", num(int(some)), ONE, base_, F + what)


def from_file(R):
    base_ = hyps("more")

    def run():
        M = module()
        got = []

        class Sub(M["CCAirfoil"]):
            def __init__(self, *a, **k):
                got.append((a, k))
        r = Sub.initFromAerodynFile("file")
        a, k = got[-1] if got else ((), {})
        k = dict(zip(("alpha", "Re", "cl", "cd", "cm"), a), **k)
        return len(got) == 1 and type(r) is Sub and set(k) == {"alpha", "Re", "cl", "cd", "cm"} and all(isinstance(v, Piece) and v.id == ("file", q) for q, v in k.items())
    for c, ok, m in runs(run, base_):
        R.eq("the file's airfoil gridded and handed to the constructor", num(int(ok)), ONE, c, F + "initFromAerodynFile")
