"""The OpenMDAO components: their outputs are those of the rotor analysis, their partials its gradients."""
import fnmatch
import inspect
from bemstub import *
F = "ccblade_component.py:"
TRUSTED = ["OpenMDAO by its documented interface (assignment into outputs and partials copies, reshaping where the sizes agree; undeclared partials are zero; rows/cols)",
           "numpy by lib/npshim.py (interp as a function of point and tables)"]
ASSUMPTIONS = ["the rotor analysis by contract: values and gradients are functions of the rotor's state and the condition (C03, C04, C11, C12, C13); CCBlade.__init__ and DirectionVector are executed from source",
               "airfoil data by contract: CCAirfoil is a function of its arguments (C20)", "no NaN (real arithmetic)", "CCBladeLoads.compute ran at the same inputs before compute_partials",
               "CCBladeTwist in inverse-design mode is covered by the runtime layer only (bounded)"]
na_, nre_, nt_, p_, q_, k_ = ivar("na"), ivar("nre"), ivar("nt"), ivar("p"), ivar("q"), ivar("k")
TAB = ("airfoils_cl", "airfoils_cd", "airfoils_cm")


# ------------------------------------------------------------------ OpenMDAO
class Options:
    def __init__(self):
        self.d, self.v = set(), {}

    def declare(self, k, default=None, **kw):
        self.d.add(k)
        if default is not None:
            self.v[k] = default

    def __getitem__(self, k):
        if k not in self.d:
            raise KeyError(k)
        return self.v[k]


def dims_of(val, shape):
    if shape is not None:
        return tuple(dim(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
    d = asarr(val).dims if not isinstance(val, (int, float)) else ()
    return tuple(d) or (aff(1),)


class Component:
    def __init__(self, **kw):
        self.options, self._in, self._disc, self._out, self._dec = Options(), {}, {}, {}, []
        self.initialize()
        for k, v in kw.items():
            if k not in self.options.d:
                raise KeyError(k)
            self.options.v[k] = v
        self.setup()
        self.setup_partials()

    def initialize(self):
        pass

    def setup_partials(self):
        pass

    def add_input(self, name, val=1.0, shape=None, units=None, desc=""):
        self._new(name)
        self._in[name] = (dims_of(val, shape), units)

    def add_output(self, name, val=1.0, shape=None, units=None, desc=""):
        self._new(name)
        self._out[name] = (dims_of(val, shape), units)

    def add_discrete_input(self, name, val, desc=""):
        self._new(name)
        self._disc[name] = val

    def _new(self, name):
        if name in self._in or name in self._out or name in self._disc:
            raise ValueError("variable %s declared twice" % name)

    def declare_partials(self, of, wrt, dependent=True, rows=None, cols=None, val=None, method="exact", step=None, form=None, step_calc=None, minimum_step=None):
        L = lambda x: [x] if isinstance(x, str) else list(x)
        n = 0
        for o in self._out:
            for w in self._in:
                if any(fnmatch.fnmatchcase(o, p) for p in L(of)) and any(fnmatch.fnmatchcase(w, p) for p in L(wrt)):
                    self._dec.append((o, w, dict(dependent=dependent, rows=rows, cols=cols, val=val, method=method)))
                    n += 1
        if not n:
            raise ValueError("no partials match")


def declared(c):
    """(output, input) -> last declaration"""
    out = {}
    for o, w, d in c._dec:
        out[o, w] = d
    return out


class Vec(dict):
    """inputs or outputs: assignment copies into the declared array"""
    read_only = False

    def __setitem__(self, k, v):
        if self.read_only:
            raise ValueError("inputs are read only")
        dst = dict.__getitem__(self, k)
        v = pyex.asarr(v)
        s = v.snap()
        dd, vd = list(dst.dims), list(v.dims)
        while len(vd) > len(dd) and vd[0] == aff(1):
            vd = vd[1:]
        if len(vd) <= len(dd) and all(same_dim(a, b) or a == aff(1) for a, b in zip(vd[::-1], dd[::-1])):
            dst[...] = v.reshape(*[mki(d) for d in vd]) if len(vd) != v.ndim else v
        else:
            dst[...] = v.reshape(*[mki(d) for d in dd])

    def update(self, *a, **k):
        for q, v in dict(*a, **k).items():
            self[q] = v


class Jac(dict):
    def __setitem__(self, key, v):
        dst = dict.__getitem__(self, key)
        if isinstance(v, (V, I, int, float)):
            dst[...] = v
            return
        v = pyex.asarr(v)
        if all(d == aff(1) for d in v.dims):
            dst[...] = V(lift(v.at(*[aff(0)] * v.ndim)))
            return
        if len(v.dims) == len(dst.dims) and all(same_dim(a, b) for a, b in zip(v.dims, dst.dims)):
            dst[...] = v
            return
        if len(dst.dims) == 1 and v.ndim > 1:
            raise ValueError("shape of a sparse partial")
        dst[...] = v.reshape(*[mki(d) for d in dst.dims])


# --------------------------------------------------------- callees by contract
class Airfoil_:
    """CCAirfoil: a function of what it is constructed from"""

    def __init__(self, *a, **k):
        b = SIG["CCAirfoil"].bind(self, *a, **k)
        b.apply_defaults()
        self._args = {q: v for q, v in b.arguments.items() if q != "self"}

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("CCAirfoil.%s" % k)


SIG = {}
GEN = dict(r="r", chord="chord", theta="theta", Rhub="Rhub", Rtip="Rtip", hub_height="hubHt", precone="precone", tilt="tilt", yaw="yaw", precurve="precurve", shearExp="shear",
           V_load="Uinf", Omega_load="Omega", pitch_load="pitch", azimuth_load="azimuth", presweep="presweep", precurveTip="precurveTip", presweepTip="presweepTip")
VEC_ = ("r", "chord", "theta", "precurve", "presweep")
TOT = ("P", "T", "Y", "Z", "Q", "My", "Mz", "Mb")
SCN = ("precone", "tilt", "hubHt", "Rhub", "Rtip", "precurveTip", "presweepTip", "yaw", "shear")


def first(x, nm):
    """the single condition handed to evaluate (any nesting of length one)"""
    while isinstance(x, (list, tuple)):
        if len(x) != 1:
            raise Unsupported("several conditions")
        x = x[0]
    return scalar_node(x, nm)


def distributed(self, Uinf, Omega, pitch, azimuth):
    record(self, "distributedAeroLoads", [scalar_node(x, "condition") for x in (Uinf, Omega, pitch, azimuth)])
    snapshot(self)
    return da_contract(self, Uinf, Omega, pitch, azimuth)


def ev_(o, a):
    return fn("ev." + o, *a)


def dev(o, z, a, q=None):
    return fn("ev.%s/%s" % (o, z), *(([] if q is None else [aff_node(q)]) + a))


def evaluate(self, Uinf, Omega, pitch, coefficients=False):
    a = [first(x, "condition") for x in (Uinf, Omega, pitch)]
    record(self, "evaluate", a)
    co = coefficients if isinstance(coefficients, bool) else bool(coefficients)
    one = lambda f, *d: new((aff(1),) + d, f)
    ks = [k for k in TOT] + (["C" + k for k in TOT] if co else [])
    out = {k: one(lambda idx, k=k: ev_(k, a)) for k in ks}
    out["W"] = new((n_,), lambda idx: fn("ev.W", aff_node(idx[0]), *a))
    D = {}
    if self.derivatives:
        for k in ks:
            d = D["d" + k] = {}
            for z in SCN + ("Uinf", "Omega", "pitch"):
                d["d" + z] = one(lambda idx, k=k, z=z: dev(k, z, a), aff(1))
            for z in VEC_:
                d["d" + z] = one(lambda idx, k=k, z=z: dev(k, z, a, idx[1]), n_)
    return out, D


def record(self, what, args):
    pyex.MACH.events.append(("call", what, args, facts(self)))


def val(x):
    """a value as a term"""
    if isinstance(x, bool):
        return num(int(x))
    if x is None or isinstance(x, str):
        return sym("=%r" % (x,))
    if isinstance(x, A) or isinstance(x, (list, tuple)):
        x = asarr(x)
        if all(d == aff(1) for d in x.dims):
            return lift(x.at(*[aff(0)] * x.ndim))
        raise Unsupported("array for a scalar")
    return node(x)


def shape_tag(x):
    return "".join("[%r]" % d for d in pyex.asarr(x).dims)


def facts(o):
    """what the analysis depends on: the rotor's state"""
    f = {}
    for k in VEC_:
        x = pyex.asarr(getattr(o, k))
        f[k + " one value per section"] = num(int(x.ndim == 1 and same_dim(x.dims[0], n_)))
        f[k + "(j)"] = lift(x.at(j_)) if x.ndim == 1 else sym("=shape")
    for k in ("Rhub", "Rtip", "B", "rho", "mu", "precone", "tilt", "yaw", "shearExp", "hubHt", "precurveTip", "presweepTip", "iterRe", "derivatives", "inverse_analysis", "induction", "induction_inflow", "nSector"):
        f[k] = val(getattr(o, k))
    for k in ("usecd", "tiploss", "hubloss", "wakerotation"):
        f["option " + k] = val(o.bemoptions[k])
    af = o.af
    f["one airfoil per section"] = num(int(same_dim(dim(raw_len(af)), n_)))
    x = af[I(j_)] if not isinstance(af, A) else af.at(j_)
    if not isinstance(x, Airfoil_):
        raise Unsupported("airfoil of a section: %r" % type(x).__name__)
    a = x._args
    for k, d, sh in (("alpha", (p_,), (na_,)), ("Re", (q_,), (nre_,)), ("cl", (p_, q_), (na_, nre_)), ("cd", (p_, q_), (na_, nre_)), ("cm", (p_, q_), (na_, nre_))):
        y = pyex.asarr(a[k])
        ok = len(y.dims) == len(sh) and all(same_dim(s, t) for s, t in zip(y.dims, sh))
        f["airfoil(j) %s shape" % k] = num(int(ok))
        if ok:
            f["airfoil(j) %s" % k] = lift(y.at(*d))
    return f


def raw_len(x):
    n = pyex.s_len(x)
    return n.a if isinstance(n, I) else n


# -------------------------------------------------------------------- running
def module(subs):
    npshim.INTERP[0] = npshim.interp_opaque
    M = ccblade(subs)
    C, Af = M["CCBlade"], M["CCAirfoil"]
    SIG["CCAirfoil"] = inspect.signature(Af.__init__)
    rot = type("CCBlade", (C,), dict(distributedAeroLoads=distributed, evaluate=evaluate))
    cs = load(src("csystem.py"), "ccblade.csystem", npshim.MODS)
    om = pyex.FakeModule("openmdao.api", dict(ExplicitComponent=Component))
    cc = pyex.FakeModule("ccblade.ccblade", dict(CCBlade=rot, CCAirfoil=Airfoil_))
    csm = pyex.FakeModule("ccblade.csystem", cs)
    m = dict(npshim.MODS)
    m.update({"openmdao.api": om, "openmdao": pyex.FakeModule("openmdao", dict(api=om)), "ccblade.ccblade": cc, "ccblade.csystem": csm,
              "ccblade": pyex.FakeModule("ccblade", dict(ccblade=cc, csystem=csm))})
    return load(src("ccblade_component.py"), "ccblade.ccblade_component", m), rot


DISC = ("tiploss", "hubloss", "wakerotation", "usecd")


def value(name, idx):
    if name in TAB or len(idx) > 1:
        return fn("tab." + name, *[aff_node(aff(i)) for i in idx])
    return elem("in." + name, idx[0])


def inputs_of(comp):
    v = Vec()
    for k, (d, u) in comp._in.items():
        x = new(d, (lambda idx, k=k: sym(k)) if d == (aff(1),) else (lambda idx, k=k: value(k, idx)), k)
        x.root.owner = k
        dict.__setitem__(v, k, x)
    v.read_only = True
    return v


def discrete_of(comp):
    d = {k: sc(k) for k in comp._disc}
    if "nSector" in d:
        d["nSector"] = I(ns_)
    if "nBlades" in d:
        d["nBlades"] = sc("B")
    return d


def stale(tag, d):
    """what is there before the call"""
    return new(d, lambda idx: fn("old." + tag, *[aff_node(i) for i in idx]))


def outputs_of(comp):
    v = Vec()
    for k, (d, u) in comp._out.items():
        dict.__setitem__(v, k, stale(k, d))
    return v


def jac_of(comp):
    J = Jac()
    for (o, w), d in declared(comp).items():
        if d["dependent"] is False:
            continue
        if d["rows"] is not None:
            r = pyex.asarr(d["rows"])
            dims = (r.dims[0],)
        else:
            dims = (total(comp._out[o][0]), total(comp._in[w][0]))
        if d["val"] is not None:
            x = new(dims, lambda idx: ZERO)
            x[...] = d["val"]
        else:
            x = stale("%s/%s" % (o, w), dims)
        dict.__setitem__(J, (o, w), x)
    return J


def total(d):
    t = [x for x in d if x != aff(1)]
    if len(t) > 1:
        return ivar("size" + repr(d)) if False else aff(10 ** 6)
    return t[0] if t else aff(1)


def element(comp, J, o, w, i, j):
    """element (i, j) of the declared partial"""
    d = declared(comp)[o, w]
    if d["dependent"] is False:
        return ZERO
    x = dict.__getitem__(J, (o, w))
    if d["rows"] is None:
        return lift(x.at(i, j))
    r, c = pyex.asarr(d["rows"]), pyex.asarr(d["cols"])
    if r.dims[0] == aff(1):
        same = truth(cmp_("==", i, idx_(r.at(aff(0))))) and truth(cmp_("==", j, idx_(c.at(aff(0)))))
        return lift(x.at(aff(0))) if same else ZERO
    if idx_(r.at(k_)) == k_ and idx_(c.at(k_)) == k_:
        return lift(x.at(i)) if truth(cmp_("==", i, j)) else ZERO
    raise Unsupported("sparsity pattern")


def idx_(x):
    x = raw_int(wrap(x)) if not isinstance(x, (int, Aff)) else x
    return aff(x)


def ctx18(extra=()):
    c = rotor_ctx(2, [cmp_("<=", 1, nt_), cmp_("<=", 1, na_), cmp_("<=", 1, nre_), cmp_("<=", 1, ns_), cmp_("<=", 0, p_), cmp_("<", p_, na_), cmp_("<=", 0, q_), cmp_("<", q_, nre_),
                      cmp_("<=", 0, k_), cmp_("<", k_, n_)] + list(extra))
    last = elem("in.r", n_ - 1)
    for a, b in ((sym("Rhub"), elem("in.r", 0)), (sym("Rtip"), last), (sym("precurveTip"), elem("in.precurve", n_ - 1)), (sym("presweepTip"), elem("in.presweep", n_ - 1)), (last, elem("in.r", 0)), (last, ZERO)):
        c.assume(*cmp_("!=", a, b))
    return c


def options():
    return {"WISDEM": {"RotorSE": dict(n_span=I(n_), n_aoa=I(na_), n_Re=I(nre_), n_tab=I(nt_), inn_af=False)}}


def rotor_spec(rot, inp, disc, tab, sweep, **kw):
    """the rotor of the inputs, by the documented keyword arguments of CCBlade"""
    af = new((n_,), lambda idx: Airfoil_(inp["airfoils_aoa"], inp["airfoils_Re"], *[new((na_, nre_), lambda z, t=t, i=idx[0]: value(t, (i, z[0], z[1], tab))) for t in TAB]))
    a = dict(r=inp["r"], chord=inp["chord"], theta=inp["theta"] if "theta" in inp else None, af=af, Rhub=inp["Rhub"], Rtip=inp["Rtip"], B=disc["nBlades"], rho=inp["rho"], mu=inp["mu"],
             precone=inp["precone"], tilt=inp["tilt"], yaw=inp["yaw"], shearExp=inp["shearExp"], hubHt=inp["hub_height"], nSector=disc["nSector"], precurve=inp["precurve"],
             precurveTip=inp["precurveTip"])
    if sweep:
        a.update(presweep=inp["presweep"], presweepTip=inp["presweepTip"])
    a.update({k: disc[k] for k in DISC})
    a.update(kw)
    return rot(**a)


def flat(x, d, i):
    return lift(x.at(i) if len(d) == 1 else x.at())


TABLES = {}      # name -> specified element


def named_table(a):
    """the specified table this one equals (elementwise, by rational normal form), else its content"""
    s = a.snap()
    go, t = pyex.tree(lambda q: e_lift(s((q,))))
    v = go([], 0, a.dims[0])
    if same_dim(a.dims[0], n_):
        for nm, f in TABLES.items():
            if npshim_zero(v - f(ivar(t))):
                return sym("tab.%s" % nm)
    return npshim.by_content(lambda q: isubst(v, {t: q}), a.dims[0])


def npshim_zero(d):
    key = d.id
    if key not in _Z:
        import obl
        e = [x for x in ctx().get_samples()][:1]
        e = Env(e[0].s, obl._AnyInt(), e[0].arr, e[0].seed) if e else Env({}, obl._AnyInt(), {}, 7)
        try:
            _Z[key] = abs(ev(d, e)) < 1e-15 and obl.zero(d, e, 60000, 10.0)
        except (Undefined, ZeroDivisionError, ValueError, OverflowError):
            _Z[key] = False
    return _Z[key]


_Z = {}


def interp_named(x, xp, fp):
    return fn("interp", x, named_table(xp), named_table(fp))


def raw_int_(x):
    return x.a if isinstance(x, I) else aff(x)


def calls():
    return [e for e in pyex.MACH.events if e[0] == "call"]


UNITS = dict(r="m", chord="m", theta="deg", Rhub="m", Rtip="m", hub_height="m", precone="deg", tilt="deg", yaw="deg", precurve="m", precurveTip="m", presweep="m", presweepTip="m", rho="kg/m**3",
             mu="kg/(m*s)", shearExp=None, V_load="m/s", Omega_load="rpm", pitch_load="deg", azimuth_load="deg", airfoils_aoa="deg", airfoils_Re=None, airfoils_cl=None, airfoils_cd=None,
             airfoils_cm=None, precurve_in="m", presweep_in="m", Uhub="m/s", tsr=None, pitch="deg", theta_in="rad", aoa_op="rad", rthick=None, s_opt_theta=None, s_opt_chord=None)


def interface(comp, ins, outs, theta="deg"):
    """documented inputs and outputs with their units"""
    bad = [k for k in ins if k not in comp._in or unit(comp._in[k][1]) != unit(UNITS[k])]
    bad += [k for k, u in outs.items() if k not in comp._out or unit(comp._out[k][1]) != unit(u)]
    return num(len(bad))


def unit(u):
    return (u or "").replace(" ", "")


def tasks(tier):
    subs = kern.load_fortran()
    out = [("geometry", geometry)]
    out.append(("loads", lambda R: loads(R, subs)))
    out.append(("evaluate: outputs", lambda R: ev_out(R, subs)))
    out.append(("evaluate: partials", lambda R: ev_part(R, subs)))
    out.append(("twist", lambda R: twist(R, subs)))
    return out


def note(c, base_):
    return " ".join(("" if q else "!") + h.op for h, q in c.hyps[len(base_.hyps):] if h.kind == "r")


def post(R, t, c, got, want, f):
    for k in want:
        if k in got:
            R.eq(t + k, got[k], want[k], c, F + f)
        else:
            R.eq(t + k, sym("missing"), want[k], c, F + f)


def post_calls(R, t, c, cs, want, cond, f, least=1):
    R.eq(t + "the analysis is called", num(int(len(cs) >= least)), ONE, c, F + f)
    for e in cs:
        for q, (a, b) in enumerate(zip(e[2], cond[e[1]])):
            R.eq(t + "%s called with condition argument %d" % (e[1], q), a, b, c, F + f)
        for k, w in want.items():
            R.eq(t + "%s of the rotor with %s" % (e[1], k), e[3].get(k, sym("missing")), w, c, F + f)


# ------------------------------------------------------------------ components
def geometry(R):
    base_ = base(ranges)
    base_.use_z3_real = False
    for h in (cmp_("<=", 1, n_), cmp_("<=", 0, j_), cmp_("<", j_, n_)):
        base_.assume(*h)
    f = "CCBladeGeometry"
    subs = kern.load_fortran()

    def run():
        M, _ = module(subs)
        o = M[f](n_span=I(n_))
        inp, out, J = inputs_of(o), outputs_of(o), jac_of(o)
        o.compute(inp, out)
        o.compute_partials(inp, J)
        last = truth(cmp_("==", j_, n_ - 1))
        cone = rad(sym("precone"))
        tip, sweep, Rt = elem("in.precurve_in", n_ - 1), elem("in.presweep_in", n_ - 1), sym("Rtip")
        cc, ss = fn("cos", cone), fn("sin", cone)
        Rr = Rt * cc + tip * ss
        res = [("interface", interface(o, ["Rtip", "precurve_in", "presweep_in", "precone"], dict(R="m", diameter="m", precurveTip="m", presweepTip="m")), ZERO)]
        W = dict(R=Rr, diameter=2 * Rr, precurveTip=tip, presweepTip=sweep)
        res += [(k, lift(dict.__getitem__(out, k).at(aff(0))), w) for k, w in W.items()]
        dR = dict(Rtip=cc, precone=(-Rt * ss + tip * cc) * PI / 180, precurve_in=ss if last else ZERO, presweep_in=ZERO)
        D = {("R", w): v for w, v in dR.items()}
        D.update({("diameter", w): 2 * v for w, v in dR.items()})
        for a in ("precurve", "presweep"):
            D.update({(a + "Tip", w): ONE if last and w == a + "_in" else ZERO for w in dR})
        for (a, w), v in D.items():
            g = element(o, J, a, w, aff(0), j_ if w.endswith("_in") else aff(0)) if (a, w) in declared(o) else ZERO
            res.append(("partial of %s with respect to %s" % (a, w), g, v))
        return res, len(pyex.MACH.foreign)
    for c, (res, fw), m in runs(run, base_):
        t = "geometry [%s]: " % " ".join(("" if q else "!") + repr(h) for h, q in c.hyps[len(base_.hyps):])
        for k, g, w in res:
            R.eq(t + k, g, w, c, F + f)
        R.eq(t + "inputs unchanged", num(fw), ZERO, c, F + f)


LW = ["r", "chord", "theta", "Rhub", "Rtip", "hub_height", "precone", "tilt", "yaw", "precurve", "shearExp", "V_load", "Omega_load", "pitch_load", "azimuth_load"]
COMMON = ["r", "chord", "Rhub", "Rtip", "hub_height", "precone", "tilt", "yaw", "precurve", "precurveTip", "airfoils_cl", "airfoils_cd", "airfoils_cm", "airfoils_aoa", "airfoils_Re", "rho", "mu", "shearExp"]


def loads(R, subs):
    private(subs)
    pyex.ALIGN[0] = (n_, "j")
    base_ = ctx18()
    f = "CCBladeLoads"

    def run():
        M, rot = module(subs)
        o = M[f](modeling_options=options())
        inp, out, disc = inputs_of(o), outputs_of(o), discrete_of(o)
        want = facts(rotor_spec(rot, inp, disc, 0, False, derivatives=True))
        o.compute(inp, out, disc, {})
        J = jac_of(o)
        o.compute_partials(inp, J, disc)
        a = [sym(k) for k in ("V_load", "Omega_load", "pitch_load", "azimuth_load")]
        res = [("interface", interface(o, COMMON + ["theta", "V_load", "Omega_load", "pitch_load", "azimuth_load"], dict(loads_r="m", loads_Px="N/m", loads_Py="N/m", loads_Pz="N/m")), ZERO)]
        W = dict(loads_r=elem("in.r", j_), loads_Px=da("Np", j_, a), loads_Py=-da("Tp", j_, a), loads_Pz=ZERO)
        for k, w in W.items():
            x = dict.__getitem__(out, k)
            res.append((k + "(j)", lift(x.at(j_)), w))
        dec = declared(o)
        same = truth(cmp_("==", j_, k_))
        for w in LW:
            z = GEN[w]
            for ld, L, sg in (("loads_Px", "Np", 1), ("loads_Py", "Tp", -1)):
                if z in ("r", "precurve"):
                    v = da_dv(L, z, j_, k_, a)
                elif z in VEC_:
                    v = da_d(L, z, j_, a) if same else ZERO
                else:
                    v = da_d(L, z, j_, a)
                if (ld, w) in dec and dec[ld, w]["method"] != "exact":
                    continue
                res.append(("partial of %s(j) with respect to %s" % (ld, w), element(o, J, ld, w, j_, k_ if z in VEC_ else aff(0)) if (ld, w) in dec else ZERO, sg * v))
            for ld in ("loads_r", "loads_Pz"):
                res.append(("partial of %s(j) with respect to %s" % (ld, w), element(o, J, ld, w, j_, k_ if z in VEC_ else aff(0)) if (ld, w) in dec else ZERO,
                            ONE if same and ld == "loads_r" and w == "r" else ZERO))
        return res, len(pyex.MACH.foreign), calls(), want
    for c, (res, fw, cs, want), m in runs(run, base_):
        t = "loads [%s]: " % note(c, base_)
        for k, g, w in res:
            R.eq(t + k, g, w, c, F + f)
        R.eq(t + "inputs unchanged", num(fw), ZERO, c, F + f)
        post_calls(R, t, c, cs, want, {"distributedAeroLoads": [sym(k) for k in ("V_load", "Omega_load", "pitch_load", "azimuth_load")]}, f)


ROWS = dict(P=["P"], Mb=["Mb"], Fhub=["T", "Y", "Z"], Mhub=["Q", "My", "Mz"], CP=["CP"], CMb=["CMb"], CFhub=["CT", "CY", "CZ"], CMhub=["CQ", "CMy", "CMz"])
EVC = ("V_load", "Omega_load", "pitch_load")


def ev_setup(subs, deriv):
    M, rot = module(subs)
    o = M["CCBladeEvaluate"](modeling_options=options())
    inp, disc = inputs_of(o), discrete_of(o)
    want = facts(rotor_spec(rot, inp, disc, 0, True, derivatives=deriv))
    return o, inp, disc, want, [sym(k) for k in EVC]


def ev_out(R, subs):
    private(subs)
    pyex.ALIGN[0] = (n_, "j")
    base_ = ctx18()
    f = "CCBladeEvaluate.compute"

    def run():
        o, inp, disc, want, a = ev_setup(subs, False)
        out = outputs_of(o)
        o.compute(inp, out, disc, {})
        u = dict(P="W", Mb="N*m", Fhub="N", Mhub="N*m", CP=None, CMb=None, CFhub=None, CMhub=None)
        res = [("interface", interface(o, COMMON + ["theta", "presweep", "presweepTip", "V_load", "Omega_load", "pitch_load"], u), ZERO)]
        for k, L in ROWS.items():
            for q, x in enumerate(L):
                res.append(("%s[%d]" % (k, q), lift(dict.__getitem__(out, k).at(aff(q))), ev_(x, a)))
            res.append((k + " size", num(int(dict.__getitem__(out, k).dims == (aff(len(L)),))), ONE))
        cs = calls()
        for e in cs:       # the outputs do not depend on whether gradients are wanted
            e[3].pop("derivatives")
        want.pop("derivatives")
        return res, len(pyex.MACH.foreign), cs, want
    for c, (res, fw, cs, want), m in runs(run, base_):
        t = "evaluate [%s]: " % note(c, base_)
        for k, g, w in res:
            R.eq(t + k, g, w, c, F + f)
        R.eq(t + "inputs unchanged", num(fw), ZERO, c, F + f)
        post_calls(R, t, c, cs, want, {"evaluate": [sym(k) for k in EVC]}, f)


def ev_part(R, subs):
    private(subs)
    pyex.ALIGN[0] = (n_, "j")
    base_ = ctx18()
    f = "CCBladeEvaluate.compute_partials"

    def run():
        o, inp, disc, want, a = ev_setup(subs, True)
        J, out = jac_of(o), outputs_of(o)
        o.compute(inp, out, disc, {})
        pyex.MACH.events[:] = []
        o.compute_partials(inp, J, disc)
        dec = declared(o)
        res = []
        for k, L in ROWS.items():
            for w, z in GEN.items():
                if w == "azimuth_load" or (k, w) in dec and dec[k, w]["method"] != "exact":
                    continue
                for q, x in enumerate(L):
                    g = element(o, J, k, w, aff(q), k_ if z in VEC_ else aff(0)) if (k, w) in dec else ZERO
                    res.append(("partial of %s[%d] with respect to %s" % (k, q, w), g, dev(x, z, a, k_ if z in VEC_ else None)))
            for w in ("rho", "mu"):
                res.append(("partial of %s with respect to %s is declared by differences" % (k, w), num(int((k, w) in dec and dec[k, w]["dependent"] and dec[k, w]["method"] in ("fd", "cs"))), ONE))
        return res, len(pyex.MACH.foreign), calls(), want
    for c, (res, fw, cs, want), m in runs(run, base_):
        t = "evaluate partials [%s]: " % note(c, base_)
        for k, g, w in res:
            R.eq(t + k, g, w, c, F + f)
        R.eq(t + "inputs unchanged", num(fw), ZERO, c, F + f)
        post_calls(R, t, c, cs, want, {"evaluate": [sym(k) for k in EVC]}, f)


def twist(R, subs):
    private(subs)
    pyex.ALIGN[0] = (n_, "j")
    no_ = ivar("no")
    base_ = ctx18([cmp_("<=", 1, no_), cmp_("<=", 0, ivar("o")), cmp_("<", ivar("o"), no_), cmp_("!=", 0, sym("Omega_"))])
    f = "CCBladeTwist.compute"

    def run():
        M, rot = module(subs)
        op = {"design_variables": {"blade": {"aero_shape": {"chord": {"n_opt": I(no_)}, "twist": {"n_opt": I(no_), "inverse": False, "flag": False}}}},
              "constraints": {"blade": {"stall": {"margin": V(sym("margin"))}}}}
        tab = 0
        if truth(cmp_("<", 1, nt_)):
            tab = raw_int_(pyex.half(nt_))
        o = M["CCBladeTwist"](modeling_options=options(), opt_options=op)
        inp, out, disc = inputs_of(o), outputs_of(o), discrete_of(o)
        th = new((n_,), lambda idx: elem("in.theta_in", idx[0]) * 180 / PI)
        want = facts(rotor_spec(rot, inp, disc, tab, True, theta=th))
        want.pop("derivatives")
        Om = sym("tsr") * sym("Uhub") / elem("in.r", n_ - 1) * 30 / PI
        a3 = [sym("Uhub"), Om, sym("pitch")]
        a4 = a3 + [ZERO]
        g = lambda k: da(k, j_, a4)
        Np, Tp = g("Np"), g("Tp")

        def frame(i, ang):
            x, y = da("Np", i, a4), -da("Tp", i, a4)
            c_, s_ = fn("cos", ang), fn("sin", ang)
            return x * c_ - y * s_, x * s_ + y * c_
        tw = lambda i: elem("in.theta_in", i)
        full = lambda i: rad(tw(i) * 180 / PI + da("alpha", i, a4) + sym("pitch"))
        Pa = frame(j_, tw(j_))
        Fa = frame(j_, full(j_))
        W = {"theta": tw(j_), "local_airfoil_velocities": fn("ev.W", aff_node(j_), *a3), "a": g("a"), "ap": g("ap"), "alpha": g("alpha"), "cl": g("Cl"), "cd": g("Cd"), "Px_b": Np, "Py_b": -Tp, "Pz_b": ZERO,
             "Px_af": Pa[0], "Py_af": Pa[1], "Pz_af": ZERO, "LiftF": Fa[0], "DragF": Fa[1]}
        r0, r1 = elem("in.r", 0), elem("in.r", n_ - 1)
        OPT = dict(cl_n_opt=lambda i: da("Cl", i, a4), cd_n_opt=lambda i: da("Cd", i, a4), L_n_opt=lambda i: frame(i, full(i))[0], D_n_opt=lambda i: frame(i, full(i))[1])
        TABLES.clear()
        TABLES.update(OPT, s=lambda i: (elem("in.r", i) - r0) / (r1 - r0))
        npshim.INTERP[0] = interp_named
        o.compute(inp, out, disc, {})
        cs = calls()
        for e in cs:
            e[3].pop("derivatives")
        res = [(k + "(j)", lift(dict.__getitem__(out, k).at(j_)), w) for k, w in W.items()]
        W = dict(CP="CP", CM="CMb", P="P", T="T", Q="Q", M="Mb")
        res += [(k, lift(dict.__getitem__(out, k).at(aff(0))), ev_(w, a3)) for k, w in W.items()]
        x = elem("in.s_opt_theta", ivar("o"))
        for k in OPT:
            res.append((k + "(o)", lift(dict.__getitem__(out, k).at(ivar("o"))), fn("interp", x, sym("tab.s"), sym("tab." + k))))
        u = dict(theta="rad", P="W", T="N", Q="N*m", M="N*m", alpha="deg", Px_b="N/m", Py_b="N/m", Pz_b="N/m", Px_af="N/m", Py_af="N/m", Pz_af="N/m", LiftF="N/m", DragF="N/m", local_airfoil_velocities="m/s")
        res.append(("interface", interface(o, COMMON + ["Uhub", "tsr", "pitch", "theta_in", "presweep", "presweepTip", "s_opt_theta"], u), ZERO))
        return res, len(pyex.MACH.foreign), cs, want, a3, a4
    for c, (res, fw, cs, want, a3, a4), m in runs(run, base_):
        t = "twist [%s]: " % note(c, base_)
        for k, g, w in res:
            R.eq(t + k, g, w, c, F + f)
        R.eq(t + "inputs unchanged", num(fw), ZERO, c, F + f)
        post_calls(R, t, c, cs, want, {"evaluate": a3, "distributedAeroLoads": a4}, f, 2)
