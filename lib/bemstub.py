"""Contracts of the compiled kernels, of scipy's brentq and of airfoil objects,
used when the Python callers are verified.  The kernels' contracts are proved
from bem.f90 by C01, C05, C07 (values) and C08, C09, C10 (derivatives); here
only their functional form is used: outputs are functions of the inputs, and
the _dv/_bv outputs are the directional/adjoint derivatives of those functions."""
from pymods import *
import kern
from fparse import *

G_ = ivar("@g")
VECS = ("r", "precurve", "presweep", "np", "tp")
WSC = ["precone", "yaw", "tilt", "azimuth", "uinf", "omegarpm", "hubht", "shearexp"]
TSC = ["precone", "rhub", "rtip", "precurvetip", "presweeptip"]
TOUT = ["t", "y", "z", "q", "m"]
IND = ["r", "chord", "rhub", "rtip", "phi", "cl", "cd", "b", "vx", "vy"]
FL = ["usecd", "hubloss", "tiploss", "wakerotation"]
RW = ["phi", "a", "ap", "vx", "vy", "pitch", "chord", "theta", "rho", "mu"]


def ph(k):
    return sym("@" + k)


def rw_primal(v):
    """alpha, W, Re of relativeWind (contract proved in C04/kernels)"""
    small = all(v[k].k == "num" and abs(v[k].a[0]) <= 10 for k in ("a", "ap"))
    if small:
        W = fn("sqrt", (ph("vx") * (1 - ph("a"))) ** 2 + (ph("vy") * (1 + ph("ap"))) ** 2)
    else:
        W = fn("rw.W", *[ph(k) for k in ("phi", "a", "ap", "vx", "vy")])
    return dict(alpha=ph("phi") - ph("theta") - ph("pitch"), w=W, re=ph("rho") * W * ph("chord") / ph("mu"))


def ind_primal(v):
    a = [ph(k) for k in IND] + [v[k] for k in FL]
    return dict(fzero=fn("bem.R", *a), a=fn("bem.a", *a), ap=fn("bem.ap", *a))


def inst(e, v):
    return nsubst(e, {ph(k): x for k, x in v.items() if isinstance(x, Node)})


def scalar_node(x, nm):
    if isinstance(x, A) and x.ndim and not all(d == aff(1) for d in x.dims):
        raise Unsupported("array given for the scalar %s" % nm)
    if isinstance(x, A):
        return lift(unwrap(x.item()))
    if x is None or isinstance(x, (str, tuple, list)):
        raise TypeError("argument %s" % nm)
    if isinstance(x, B):
        x = bool(x)
    return node(x)


class Bem:
    """stand-in of the extension module: argument order and intents as declared in the source"""

    def __init__(self, subs, log=None):
        self.subs = subs
        self.log = log if log is not None else []

    def bind(self, name, a, k):
        u = self.subs[name]
        ins = [x for x in u.args if u.decl[x]["intent"] == "in" and x not in ("n", "nbdirs")]
        opt = [x for x in ins if x in FL]
        req = [x for x in ins if x not in FL]
        order = req + opt + ["n", "nbdirs"]
        if len(a) > len(order):
            raise TypeError("%s() takes at most %d arguments" % (name, len(order)))
        v = dict(zip(order, a))
        for q, x in k.items():
            if q not in order or q in v:
                raise TypeError("%s() got an unexpected argument %s" % (name, q))
            v[q] = x
        for q in req:
            if q not in v:
                raise TypeError("%s() missing required argument %s" % (name, q))
        for q in opt:
            v.setdefault(q, ONE)
        v.pop("n", None), v.pop("nbdirs", None)
        MACH_events(name)
        return u, v, [x for x in u.args if u.decl[x]["intent"] == "out"]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name not in self.subs:
            raise AttributeError("module 'ccblade._bem' has no attribute %r" % name)
        f = {"relativewind": self.scalar, "inductionfactors": self.scalar, "relativewind_dv": self.scalar_dv, "inductionfactors_dv": self.scalar_dv,
             "windcomponents": self.wind, "windcomponents_dv": self.wind_dv, "thrusttorque": self.tt, "thrusttorque_bv": self.tt_bv, "definecurvature": self.curv}.get(name)
        if f is None:
            raise Unsupported("no contract for kernel %s" % name)
        return lambda *a, **k: f(name, a, k)

    # --------------------------------------------------------- scalar kernels
    def primal(self, base, v):
        return rw_primal(v) if base == "relativewind" else ind_primal(v)

    def scalar(self, name, a, k):
        u, v, outs = self.bind(name, a, k)
        v = {q: scalar_node(x, q) for q, x in v.items()}
        P = self.primal(name, v)
        return tuple(V(inst(P[o], v)) for o in outs)

    def scalar_dv(self, name, a, k):
        base = name[:-3]
        u, v, outs = self.bind(name, a, k)
        names = RW if base == "relativewind" else IND + FL
        s = {q: asarr(x) for q, x in v.items() if q not in names}
        v = {q: scalar_node(v[q], q) for q in names}
        nb = None
        for q, x in s.items():
            if x.ndim != 1:
                raise ValueError("%s: seed %s must be one-dimensional" % (name, q))
            nb = nb if nb is not None else x.dims[0]
            if not same_dim(nb, x.dims[0]) and not tr("==", nb, x.dims[0]):
                raise ValueError("%s: seeds of different lengths" % name)
        P = self.primal(base, v)
        sn = {q: x.snap() for q, x in s.items()}
        res = []
        for o in outs:
            if o in P:
                res.append(V(inst(P[o], v)))
                continue
            e = P[o[:-1]]
            parts = {}
            for q in s:
                m = ph(q[:-1])
                d = inst(diff(e, lambda z: ONE if z is m else ZERO), v)
                if d is not ZERO:
                    parts[q] = d
            res.append(new((nb,), lambda idx, parts=parts: addn([d * lift(sn[q](idx)) for q, d in parts.items()])))
        return tuple(res)

    # --------------------------------------------------------- vector kernels
    def vec(self, v, vecs, name):
        arrs = {q: asarr(v[q]) for q in vecs}
        n = arrs[vecs[0]].dims[0] if arrs[vecs[0]].ndim else aff(1)
        for q, x in arrs.items():
            if x.ndim != 1:
                raise Unsupported("%s: %s is not one-dimensional" % (name, q))
            if not same_dim(n, x.dims[0]) and not tr("==", n, x.dims[0]):
                raise ValueError("%s: 0-th dimension of %s must be n" % (name, q))
        c = ctx()
        for cond in (cmp_("<=", 0, G_), cmp_("<", G_, n)):
            if not isinstance(cond, bool) and cond not in c.hyps:
                c.assume(*cond)
        return n, [lift(x.at(G_)) for x in arrs.values()]

    def wind(self, name, a, k):
        u, v, outs = self.bind(name, a, k)
        n, g = self.vec(v, ["r", "precurve", "presweep"], name)
        sc_ = [scalar_node(v[q], q) for q in WSC]
        return tuple(new((n,), lambda idx, o=o: wind_term(o, idx[0], sc_, g)) for o in outs)

    def wind_dv(self, name, a, k):
        u, v, outs = self.bind(name, a, k)
        n, g = self.vec(v, ["r", "precurve", "presweep"], name)
        sc_ = [scalar_node(v[q], q) for q in WSC]
        nb = None
        sv = {q: asarr(v[q + "d"]) for q in ("r", "precurve", "presweep")}
        ss = {q: asarr(v[q + "d"]) for q in WSC}
        for q, x in list(sv.items()) + list(ss.items()):
            want = 2 if q in sv else 1
            if x.ndim != want:
                raise ValueError("%s: seed of %s has %d dimensions" % (name, q, x.ndim))
            nb = nb if nb is not None else x.dims[0]
            if not same_dim(nb, x.dims[0]) and not tr("==", nb, x.dims[0]):
                raise ValueError("%s: seeds of different lengths" % name)
            if want == 2 and not same_dim(n, x.dims[1]) and not tr("==", n, x.dims[1]):
                raise ValueError("%s: seed of %s must have n columns" % (name, q))
        gv = {q: x.snap() for q, x in sv.items()}
        gs = {q: x.snap() for q, x in ss.items()}
        res = []
        for o in outs:
            if o in ("vx", "vy"):
                res.append(new((n,), lambda idx, o=o: wind_term(o, idx[0], sc_, g)))
                continue

            def f(idx, p=o[:-1]):
                row, j = idx
                t = []
                for i, q in enumerate(WSC):
                    s = lift(gs[q]((row,)))
                    if s is not ZERO:
                        t.append(wind_d(p, j, i, sc_, g) * s)
                for q in gv:
                    for q0, val in npshim.onehot(lambda z: gv[q]((row, z)), n):
                        t.append(wind_dvec(p, j, q, q0, sc_, g) * val)
                return addn(t)
            res.append(new((nb, n), f))
        return tuple(res)

    def curv(self, name, a, k):
        u, v, outs = self.bind(name, a, k)
        n, g = self.vec(v, ["r", "precurve", "presweep"], name)
        pc = scalar_node(v["precone"], "precone")
        return tuple(new((n,), lambda idx, o=o: fn("curv." + o, aff_node(idx[0]), pc, *g)) for o in outs)

    def tt(self, name, a, k):
        u, v, outs = self.bind(name, a, k)
        n, g = self.vec(v, ["np", "tp", "r", "precurve", "presweep"], name)
        s = [scalar_node(v[q], q) for q in TSC]
        return tuple(V(tt_term(o, s, g)) for o in outs)

    def tt_bv(self, name, a, k):
        u, v, outs = self.bind(name, a, k)
        vecs = ["np", "tp", "r", "precurve", "presweep"]
        n, g = self.vec(v, vecs, name)
        s = [scalar_node(v[q], q) for q in TSC]
        seeds = {q: asarr(v[q + "b"]) for q in TOUT}
        nb = None
        for q, x in seeds.items():
            if x.ndim != 1:
                raise ValueError("%s: seed %s" % (name, q))
            nb = nb if nb is not None else x.dims[0]
            if not same_dim(nb, x.dims[0]) and not tr("==", nb, x.dims[0]):
                raise ValueError("%s: seeds of different lengths" % name)
        gs = {q: x.snap() for q, x in seeds.items()}
        res = []
        for o in outs:
            b = o[:-1]
            if b in vecs:
                res.append(new((nb, n), lambda idx, b=b: addn([lift(gs[q]((idx[0],))) * tt_dvec(q, b, idx[1], s, g) for q in TOUT])))
            else:
                i = TSC.index(b)
                res.append(new((nb,), lambda idx, i=i: addn([lift(gs[q]((idx[0],))) * tt_d(q, i, s, g) for q in TOUT])))
        return tuple(res)


def wind_term(o, j, s, g):
    return fn("wind." + o, aff_node(j), *s, *g)


def wind_d(o, j, i, s, g):
    return fn("D%d.wind.%s" % (i + 1, o), aff_node(j), *s, *g)


def wind_dvec(o, j, q, q0, s, g):
    if q == "presweep" and not tr("==", j, q0):
        return ZERO         # lemma: the velocities of a section depend on the presweep of no other section
    return fn("wind.%s/%s" % (o, q), aff_node(j), aff_node(q0), *s, *g)


def tt_term(o, s, g):
    return fn("tt." + o, *s, *g)


def tt_d(o, i, s, g):
    return fn("D%d.tt.%s" % (i, o), *s, *g)


def tt_dvec(o, q, i, s, g):
    return fn("tt.%s/%s" % (o, q), aff_node(i), *s, *g)


def MACH_events(name):
    if pyex.MACH is not None:
        pyex.MACH.events.append(("kernel", name))


# --------------------------------------------------------------------- brentq
XS = sym("@x")


def brentq(f, a, b, args=(), xtol=2e-12, rtol=8.881784197001252e-16, maxiter=100, full_output=False, disp=True):
    """scipy.optimize.brentq: raises ValueError when the ends have residuals of
    one sign, otherwise returns a root of f between a and b"""
    fa, fb = node(f(a, *args)), node(f(b, *args))
    if full_output or not disp or int(node(maxiter).a[0]) < 50:
        raise Unsupported("brentq options")
    for t in (xtol, rtol):
        t = node(t)
        if t.k != "num" or t.a[0] > Fr(1, 10 ** 8):
            raise Unsupported("brentq tolerance")
    if truth(cmp_(">", fa * fb, 0)):
        pyex.MACH.events.append(("noroot", node(a), node(b)))
        raise ValueError("f(a) and f(b) must have different signs")
    body = node(f(V(XS), *args))
    r = root_term(body, node(a), node(b))
    pyex.MACH.events.append(("root", r, body, node(a), node(b)))
    return V(r)


def root_term(body, a, b):
    return fn("root", body, a, b)


class AF(pyex.Sym):
    """airfoil of a section: opaque differentiable functions of angle and Reynolds number"""

    def __init__(self, i):
        super().__init__(lambda idx: AF(idx[0]), (aff(i),))
        self.i = aff(i)
        self._ready = True

    def __setattr__(self, k, v):
        if self.__dict__.get("_ready"):
            pyex.MACH.foreign.append("airfoil." + k)
        object.__setattr__(self, k, v)

    def args(self, alpha, Re):
        return [node(alpha), node(Re), aff_node(self.i)]

    def evaluate(self, alpha, Re, return_cm=False):
        a = self.args(alpha, Re)
        r = (V(fn("af.cl", *a)), V(fn("af.cd", *a)))
        return r + (V(fn("af.cm", *a)),) if return_cm else r

    def derivatives(self, alpha, Re):
        a = self.args(alpha, Re)
        return tuple(V(fn("D%d.af.%s" % (i, c), *a)) for c in ("cl", "cd") for i in (0, 1))


class Warnings(pyex.FakeModule):
    pass


def _warn(*a, **k):
    pyex.MACH.warned.append(a[0] if a else None)


def modules(subs):
    bem = Bem(subs)
    w = pyex.FakeModule("warnings", dict(warn=_warn))
    opt = pyex.FakeModule("scipy.optimize", dict(brentq=brentq))
    sp = pyex.FakeModule("scipy", dict(optimize=opt))
    cc = pyex.FakeModule("ccblade", dict(_bem=bem))
    m = dict(npshim.MODS)
    m.update({"warnings": w, "scipy.optimize": opt, "scipy": sp, "ccblade": cc, "ccblade._bem": bem})
    return m


def ccblade(subs):
    return load(src("ccblade.py"), "ccblade.ccblade", modules(subs))


n_, j_ = ivar("n"), ivar("j")
ROTOR_SC = ["Rhub", "Rtip", "B", "rho", "mu", "precone", "tilt", "yaw", "shearExp", "hubHt", "precurveTip", "presweepTip"]


def ranges(k):
    t = {"r": (1, 60), "Rhub": (0.2, 1), "Rtip": (60, 70), "precone": (-20, 20), "tilt": (-20, 20), "yaw": (-30, 30), "Uinf": (3, 20), "Omega": (2, 20), "pitch": (-5, 20), "azimuth": (0, 360),
         "hubHt": (50, 100), "chord": (0.5, 3), "theta": (-5, 20), "rho": (0.5, 2), "mu": (0.2, 1.5), "B": (1, 4), "iterRe": (1, 2)}
    return t.get(k, (0.2, 1.5))


def rotor_ctx(n0=2, extra=()):
    c = base(ranges)
    c.use_z3_real = False
    c.assume(*cmp_("<=", n0, n_))
    c.assume(*cmp_("<=", 0, j_))
    c.assume(*cmp_("<", j_, n_))
    last = n_ - 1
    for a, b in ((sym("Rhub"), elem("r", 0)), (sym("Rtip"), elem("r", last)), (sym("precurveTip"), elem("precurve", last)), (sym("presweepTip"), elem("presweep", last))):
        c.assume(*cmp_("!=", a, b))
    for e in extra:
        c.assume(*e)
    return c


def rotor(M, derivatives=True, **kw):
    """a rotor of the real class from symbolic arguments"""
    af = new((n_,), lambda idx: AF(idx[0]))
    af.root.owner = "af"
    a = dict(B=sc("B"), rho=sc("rho"), mu=sc("mu"), precone=sc("precone"), tilt=sc("tilt"), yaw=sc("yaw"), shearExp=sc("shearExp"), hubHt=sc("hubHt"), nSector=8,
             precurve=varr("precurve", n_), precurveTip=sc("precurveTip"), presweep=varr("presweep", n_), presweepTip=sc("presweepTip"),
             tiploss=sc("tiploss"), hubloss=sc("hubloss"), wakerotation=sc("wakerotation"), usecd=sc("usecd"), iterRe=1, derivatives=derivatives)
    a.update(kw)
    return M["CCBlade"](varr("r", n_), varr("chord", n_), varr("theta", n_), af, sc("Rhub"), sc("Rtip"), **a)


# --------------------------------------------------------------- specification
def rad(x):
    return x * PI / 180


def G(nm):
    return elem(nm, G_)


class Spec:
    """section j of the rotor in one condition, from the property statements"""

    def __init__(self, Uinf="Uinf", Omega="Omega", pitch="pitch", azimuth="azimuth", iterRe=1, s=None):
        s = s or sym
        self.s = s
        self.pitch = rad(s(pitch)) if isinstance(pitch, str) else pitch
        self.wsc = [rad(s("precone")), rad(s("yaw")), rad(s("tilt")), rad(s(azimuth)), s(Uinf), s(Omega), s("hubHt"), s("shearExp")]
        self.g = [G("r"), G("precurve"), G("presweep")]
        self.iterRe = iterRe
        self.Omega = s(Omega)

    def V(self, j):
        return wind_term("vx", j, self.wsc, self.g), wind_term("vy", j, self.wsc, self.g)

    def relwind(self, x, phi, a, ap):
        v = dict(phi=phi, a=a, ap=ap, vx=x["vx"], vy=x["vy"], pitch=x["pitch"], chord=x["chord"], theta=x["theta"], rho=self.s("rho"), mu=self.s("mu"))
        P = rw_primal(v)
        return inst(P["alpha"], v), inst(P["w"], v), inst(P["re"], v)

    def x(self, j):
        vx, vy = self.V(j)
        return dict(chord=elem("chord", j), theta=rad(elem("theta", j)), vx=vx, vy=vy, r=elem("r", j), Rhub=self.s("Rhub"), Rtip=self.s("Rtip"), pitch=self.pitch)

    def induction(self, x, phi, cl, cd):
        v = dict(r=x["r"], chord=x["chord"], rhub=x["Rhub"], rtip=x["Rtip"], phi=phi, cl=cl, cd=cd, b=self.s("B"), vx=x["vx"], vy=x["vy"])
        v.update({f: self.s(f) for f in FL})
        P = ind_primal(v)
        return inst(P["fzero"], v), inst(P["a"], v), inst(P["ap"], v)

    def bem(self, j, x, phi):
        a = ap = ZERO
        for _ in range(self.iterRe):
            al, W, Re = self.relwind(x, phi, a, ap)
            cl, cd = fn("af.cl", al, Re, aff_node(j)), fn("af.cd", al, Re, aff_node(j))
            R, a, ap = self.induction(x, phi, cl, cd)
        return R, a, ap, cl, cd

    def residual(self, j, phi):
        return self.bem(j, self.x(j), phi)[0]

    def phi(self, j):
        """the prescribed bracket and root; None without one"""
        e = num(Fr(1, 10 ** 6))
        R = lambda p: self.residual(j, p)
        body = R(XS)
        pos = lambda a, b: truth(cmp_(">", R(a) * R(b), 0))
        if not pos(e, PI / 2):
            return root_term(body, e, PI / 2)
        if truth(cmp_("<", R(-PI / 4), 0)) and truth(cmp_(">", R(-e), 0)):
            return root_term(body, -PI / 4, -e)
        if not pos(PI / 2, PI - e):
            return root_term(body, PI / 2, PI - e)
        return None

    def section(self, j, phi, rotating=True):
        x = self.x(j)
        return self.section_x(j, x, phi, rotating)

    def section_x(self, j, x, phi, rotating=True):
        if rotating:
            R, a, ap, cl, cd = self.bem(j, x, phi)
            al, W, Re = self.relwind(x, phi, a, ap)
        else:
            a = ap = ZERO
            al, W, Re = self.relwind(x, phi, a, ap)
            cl, cd = fn("af.cl", al, Re, aff_node(j)), fn("af.cd", al, Re, aff_node(j))
        c, s = fn("cos", phi), fn("sin", phi)
        cn, ct = cl * c + cd * s, cl * s - cd * c
        q = self.s("rho") * W * W / 2
        return dict(Np=cn * q * x["chord"], Tp=ct * q * x["chord"], a=a, ap=ap, alpha=al * 180 / PI, Cl=cl, Cd=cd, Cn=cn, Ct=ct, W=W, Re=Re)


# ------------------------------------------- distributedAeroLoads by contract
X_ROWS = ["r", "chord", "theta", "Rhub", "Rtip", "presweep", "precone", "tilt", "hubHt", "yaw", "shear", "azimuth", "Uinf", "Omega", "pitch"]
DICT_SC = ["Rhub", "Rtip", "precone", "tilt", "hubHt", "yaw", "shear", "azimuth", "Uinf", "Omega", "pitch"]
STATE_A = ("r", "chord", "theta", "precurve", "presweep")
STATE_S = ("Rhub", "Rtip", "B", "rho", "mu", "precone", "tilt", "yaw", "shearExp", "hubHt", "precurveTip", "presweepTip", "iterRe", "derivatives", "inverse_analysis", "induction", "induction_inflow")
m_, ci_, ns_ = ivar("m"), ivar("i"), ivar("ns")


def da(k, j, args):
    """load k at section j in the condition args = (Uinf, Omega, pitch, azimuth in degrees)"""
    return fn("da." + k, aff_node(j), *args)


def da_d(k, z, j, args):
    return fn("da.%s/%s" % (k, z), aff_node(j), *args)


def da_dv(k, z, j, q, args):
    """derivative of the load at section j with respect to element q of z (r or precurve)"""
    return fn("da.%s//%s" % (k, z), aff_node(j), aff_node(q), *args)


def state_ok(self):
    """the rotor still is the one that was built"""
    s0 = self.__dict__.get("_built")
    for k in STATE_A:
        if gen(getattr(self, k), ivar("@s")) is not s0[k]:
            raise Unsupported("rotor attribute %s changed before an analysis" % k)
    for k in STATE_S:
        if unwrap(getattr(self, k)) != s0[k] and node(getattr(self, k)) is not s0[k]:
            raise Unsupported("rotor attribute %s changed before an analysis" % k)


def snapshot(Rt):
    s = {k: gen(getattr(Rt, k), ivar("@s")) for k in STATE_A}
    s.update({k: unwrap(getattr(Rt, k)) for k in STATE_S})
    Rt.__dict__["_built"] = s
    return Rt


# the matrices distributedAeroLoads leaves behind for evaluate: attribute -> (load, which, transposed)
PRIVATE0 = {"_d%s_%s" % (L, w): (L, z, True) for L in ("Np", "Tp") for w, z in (("dX", "X"), ("dr", "r"), ("dprecurve", "precurve"))}
_PRIV = {}


def private(subs):
    """names of these attributes: the usual ones if the source has them, else
    recognised by what the real function stores in them"""
    if _PRIV:
        return _PRIV["names"]
    C = ccblade(subs)["CCBlade"]
    seen = set()

    def names(code):
        seen.update(code.co_names)
        for k in code.co_consts:
            if hasattr(k, "co_names"):
                names(k)
    for f in vars(C).values():
        f = getattr(f, "__func__", f)
        if hasattr(f, "__code__"):
            names(f.__code__)
    _PRIV["names"] = dict(PRIVATE0) if set(PRIVATE0) <= seen else discover(subs)
    return _PRIV["names"]


def discover(subs):
    import C04
    S = Spec()
    old = pyex.ALIGN[0]
    pyex.ALIGN[0] = (n_, "j")
    i_ = ivar("i")
    base_ = rotor_ctx(2, C04.nondegenerate(S, j_, True) + [cmp_("!=", elem("chord", j_), 0), cmp_("!=", sym("Omega"), 0), cmp_("<=", 0, i_), cmp_("<", i_, n_), cmp_("!=", i_, j_)])

    def at(x, *k):
        try:
            return lift(x.at(*k))
        except (Unsupported, IndexError):
            return None

    def run():
        M = ccblade(subs)
        if S.phi(j_) is None:
            return None
        w = S.section(j_, S.phi(j_), True)
        if any(truth(cmp_("==", w[k], 0)) for k in ("Cn", "Ct", "W")):
            return None
        Rt = rotor(M, True)
        built = set(Rt.__dict__)
        L, D = Rt.distributedAeroLoads(*[sc(k) for k in C04.COND])
        out = {}
        for k, x in Rt.__dict__.items():
            if k in built or not isinstance(x, A) or x.ndim != 2:
                continue
            for load in ("Np", "Tp"):
                d = {q: asarr(v) for q, v in D["d" + load].items()}
                if x.dims[0] == aff(15):
                    if all(at(x, aff(X_ROWS.index(z)), j_) is at(d["d" + z], j_, aff(0)) for z in DICT_SC):
                        out[k] = (load, "X", True)
                elif same_dim(x.dims[0], n_) and same_dim(x.dims[1], n_):
                    for z in ("r", "precurve"):
                        v = at(d["d" + z], j_, i_)
                        if v is not None and at(x, i_, j_) is v:
                            out[k] = (load, z, True)
                        elif v is not None and at(x, j_, i_) is v:
                            out[k] = (load, z, False)
        return out
    try:
        for c, r, m in runs(run, base_):
            if r is not None:
                return r
        return {}
    finally:
        pyex.ALIGN[0] = old


def da_contract(self, Uinf, Omega, pitch, azimuth):
    """contract proved by C03, C04 (values) and C11 (gradients): loads and
    gradients are functions of the rotor and the four arguments"""
    state_ok(self)
    a = [scalar_node(x, "condition") for x in (Uinf, Omega, pitch, azimuth)]
    pyex.MACH.events.append(("analysis", a))
    self.pitch = V(rad(a[2]))
    loads = {k: new((n_,), lambda idx, k=k: da(k, idx[0], a)) for k in ("Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re")}
    derivs = {}
    if self.derivatives:
        for k in ("Np", "Tp"):
            def row(idx, k=k):
                z, j = idx
                z = aff(z)
                if not z.is_const():
                    raise Unsupported("row of the gradient matrix")
                z = X_ROWS[z.c]
                return da_dv(k, z, j, j, a) if z == "r" else da_d(k, z, j, a)
            for nm, (L, z, tr_) in _PRIV["names"].items():
                if L == k and z == "X":
                    setattr(self, nm, new((15, n_), row))
                elif L == k:
                    setattr(self, nm, new((n_, n_), lambda idx, k=k, z=z, t=tr_: da_dv(k, z, idx[1] if t else idx[0], idx[0] if t else idx[1], a)))
            D = {"d" + z: new((n_, 1), lambda idx, k=k, z=z: da_d(k, z, idx[0], a)) for z in DICT_SC}
            D.update({"d" + z: npshim.NP.diag(new((n_,), lambda idx, k=k, z=z: da_d(k, z, idx[0], a))) for z in ("chord", "theta", "presweep")})
            D.update({"d" + z: new((n_, n_), lambda idx, k=k, z=z: da_dv(k, z, idx[0], idx[1], a)) for z in ("r", "precurve")})
            derivs["d" + k] = D
    return loads, derivs


class Totals:
    """specified rotor totals of condition i: averages over ns azimuths from zero"""
    OUT = ["T", "Y", "Z", "Q", "My", "Mz", "Mb"]

    def __init__(self, ns):
        self.ns = aff(ns)
        self.U, self.Om, self.pitch = elem("Uinf", ci_), elem("Omega", ci_), elem("pitch", ci_)
        self.B = sym("B")
        self.s = [rad(sym("precone")), sym("Rhub"), sym("Rtip"), sym("precurveTip"), sym("presweepTip")]
        self.R = sym("Rtip") * fn("cos", self.s[0]) + sym("precurveTip") * fn("sin", self.s[0])

    def args(self, k):
        return [self.U, self.Om, self.pitch, 360 * aff_node(k) / aff_node(self.ns)]

    def g(self, k):
        return [da("Np", G_, self.args(k)), da("Tp", G_, self.args(k)), G("r"), G("precurve"), G("presweep")]

    def blade(self, o, k):
        return tt_term(o, self.s, self.g(k))

    def dblade(self, o, k, z, q=None):
        """derivative of a blade's integral at azimuth k with respect to input z (element q)"""
        g, a = self.g(k), self.args(k)
        tot = ZERO
        direct = dict(precone=0, Rhub=1, Rtip=2, precurveTip=3, presweepTip=4)
        if z in direct:
            tot = tot + tt_d(o, direct[z], self.s, g) * (PI / 180 if z == "precone" else ONE)
        if z in ("r", "precurve", "presweep"):
            tot = tot + tt_dvec(o, z, q, self.s, g)
        for L, v in (("Np", "np"), ("Tp", "tp")):
            if z in ("chord", "theta", "presweep"):
                tot = tot + tt_dvec(o, v, q, self.s, g) * da_d(L, z, q, a)
            elif z in ("r", "precurve"):
                t = tmpvar()
                tot = tot + psum(t, isubst(tt_dvec(o, v, ivar("%q"), self.s, g) * da_dv(L, z, ivar("%q"), q, a), {"%q": ivar(t) - 1}), n_)
            elif z not in ("precurveTip", "presweepTip"):
                t = tmpvar()
                tot = tot + psum(t, isubst(tt_dvec(o, v, ivar("%q"), self.s, g) * da_d(L, z, ivar("%q"), a), {"%q": ivar(t) - 1}), n_)
        return tot

    def combine(self, out, f):
        """f(o, k): blade quantity o at azimuth k, in the rotor total `out`"""
        def body(k):
            psi = 2 * PI * aff_node(k) / aff_node(self.ns)
            c, s = fn("cos", psi), fn("sin", psi)
            B = self.B
            return {"T": lambda: B * f("t", k), "Y": lambda: B * (f("y", k) * c - f("z", k) * s), "Z": lambda: B * (f("z", k) * c + f("y", k) * s), "Q": lambda: B * f("q", k),
                    "My": lambda: B * f("m", k) * c, "Mz": lambda: B * f("m", k) * s, "Mb": lambda: f("m", k)}[out]()
        if self.ns.is_const():
            return addn([body(aff(k)) for k in range(self.ns.c)]) / self.ns.c
        t = tmpvar()
        return psum(t, isubst(body(ivar("%k")), {"%k": ivar(t) - 1}), self.ns) / aff_node(self.ns)

    def value(self, out):
        if out == "P":
            return self.value("Q") * self.Om * PI / 30
        return self.combine(out, self.blade)

    def norm(self, out):
        q = sym("rho") * self.U ** 2 / 2
        A = PI * self.R ** 2
        if out == "P":
            return q * A * self.U
        return q * A * (ONE if out in ("T", "Y", "Z") else self.R)

    def grad(self, out, z, q=None):
        if out == "P":
            d = self.grad("Q", z, q) * self.Om * PI / 30
            return d + self.value("Q") * PI / 30 if z == "Omega" else d
        return self.combine(out, lambda o, k: self.dblade(o, k, z, q))

    def cgrad(self, out, z, q=None):
        N = self.norm(out)
        if z == "Uinf":
            dN = diff(N, lambda s: ZERO, lambda a, k: ONE if a == "Uinf" else ZERO)
        else:
            dN = diff(N, lambda s: ONE if s is sym(z) else ZERO, lambda a, k: ZERO)
        return self.grad(out, z, q) / N - self.value(out) / N ** 2 * dN
