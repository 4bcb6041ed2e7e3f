"""Specification functions and contexts for the kernels over sections."""
import random
from mpmath import mpf
from kern import *
from fexec import *
from obl import _AnyInt

G = {k: sym(k) for k in ("precone", "yaw", "tilt", "azimuth", "uinf", "omegarpm", "hubht", "shearexp", "rhub", "rtip", "precurvetip", "presweeptip")}
n_, j_ = ivar("n"), ivar("j")


def sect_env(extra=(), nmin=2, hyps=()):
    def f(k, c):
        rnd = random.Random(7919 * k + 5)
        u = lambda a, b: mpf(rnd.uniform(a, b))
        n = rnd.choice([nmin, 2, 2, 3, 3, 4, 5, 6, 7])
        if hyps:
            # integers meeting the extra hypotheses
            ok = [(a, b) for a in range(1, 11) for b in range(1, a + 1) if all({"==": v == 0, "<=": v <= 0, "<": v < 0}[op] for op, v in ((op, e.ev({"n": a, "j": b})) for op, e in hyps))]
            n, jj = rnd.choice(ok[:6])
        s0 = [u(.05, .4), u(.05, .4), mpf(1), mpf(2), mpf(0)][k % 5]
        i = {"n": n, "j": jj if hyps else rnd.randint(1, n), "nbdirs": 2}
        for v in extra:
            i[v] = rnd.randint(1, n)
        s = dict(precone=u(-.2, .2), yaw=u(-.6, .6), tilt=u(-.3, .3), azimuth=u(-3, 3), uinf=u(3, 20), omegarpm=u(-20, 20), hubht=u(70, 120), shearexp=s0,
                 rhub=u(.5, 2), rtip=u(45, 60), precurvetip=u(-3, 3), presweeptip=u(-3, 3))
        a = dict(r=[u(3, 4) + 5 * q + u(0, 3) for q in range(16)], precurve=[u(-3, 3) for _ in range(16)], presweep=[u(-3, 3) for _ in range(16)],
                 np=[u(-900, 4000) for _ in range(16)], tp=[u(-300, 900) for _ in range(16)])
        for nm in list(a):
            for suf in ("_1", "_2", "d"):
                a[nm + suf] = [u(-2, 3) for _ in range(16)]
        for nm in list(s):
            s[nm + "d"] = u(-1, 1)
        s.update(lin_a=u(-2, 2), lin_b=u(-2, 2))
        for nm in ("T", "Y", "Z", "Q", "M"):
            s["w_" + nm] = u(-2, 2)
        for nm in ("x", "y", "z", "cone", "s", "vx", "vy"):
            a[nm] = [u(-2, 2) for _ in range(16)]
            a[nm + "b"] = [u(-2, 2) for _ in range(16)]
        return Env(s, i, {k: (lambda q, v=v: v[q]) for k, v in a.items()}, k)
    return f


def sect_ctx(nmin=2, j=True, extra=()):
    c = Ctx(sect_env(extra, nmin))
    c.assume(Cond("i", "<=", aff(nmin) - n_))
    for v in (["j"] if j else []) + list(extra):
        c.assume(Cond("i", "<=", aff(1) - ivar(v)))
        c.assume(Cond("i", "<=", ivar(v) - n_))
    c.assume(*cmp_("<", ZERO, G["hubht"]))
    return c


def arr(name, size=None):
    return Array(name, size if size is not None else n_, lambda i, name=name: elem(name, i))


# ---- rotations, as documented: the frame is turned about the named axis ----
def turn(axis, th, v):
    """components of the vector v in a frame turned by th about `axis`"""
    s, c = fn("sin", th), fn("cos", th)
    x, y, z = v
    if axis == "y":
        return (c * x - s * z, y, s * x + c * z)
    if axis == "z":
        return (c * x + s * y, -s * x + c * y, z)
    return (x, c * y + s * z, -s * y + c * z)


def wind_to_yaw(v, yaw): return turn("z", yaw, v)
def yaw_to_hub(v, tilt): return turn("y", tilt, v)
def hub_to_azimuth(v, az): return turn("x", az, v)
def azimuth_to_blade(v, cone): return turn("y", -cone, v)
def blade_to_azimuth(v, cone): return turn("y", cone, v)
def azimuth_to_hub(v, az): return turn("x", -az, v)
def hub_to_yaw(v, tilt): return turn("y", -tilt, v)


def spec_az(i, A, precone):
    """section position in the azimuth frame"""
    return blade_to_azimuth((A["precurve"](i), A["presweep"](i), A["r"](i)), precone)


def spec_seg(i, A, precone):
    """cone angle of the segment from section i to i+1"""
    a, b = spec_az(i, A, precone), spec_az(i + 1, A, precone)
    return fn("atan2", -(b[0] - a[0]), b[2] - a[2])


def spec_cone(i, A, precone, n):
    i = aff(i)
    if truth(cmp_("==", i, 1)):
        return spec_seg(aff(1), A, precone)
    if truth(cmp_("==", i, n)):
        return spec_seg(aff(n) - 1, A, precone)
    return (spec_seg(i - 1, A, precone) + spec_seg(i, A, precone)) / 2


def spec_ds(i, A):
    """path length from i to i+1"""
    return fn("sqrt", sum(((A[k](i + 1) - A[k](i)) ** 2 for k in ("precurve", "presweep", "r")), ZERO))


def blade_arrays():
    return {k: (lambda i, k=k: elem(k, aff(i))) for k in ("r", "precurve", "presweep", "np", "tp")}


def spec_wind(i, A=None, n=None, g=None):
    A = A or blade_arrays()
    n = n if n is not None else n_
    g = g or G
    az = spec_az(i, A, g["precone"])
    h = hub_to_yaw(azimuth_to_hub(az, g["azimuth"]), g["tilt"])[2]
    V = g["uinf"] * fn("pow", 1 + h / g["hubht"], g["shearexp"])
    cone = spec_cone(i, A, g["precone"], n)
    w = azimuth_to_blade(hub_to_azimuth(yaw_to_hub(wind_to_yaw((V, ZERO, ZERO), g["yaw"]), g["tilt"]), g["azimuth"]), cone)
    Om = g["omegarpm"] * PI / 30
    # velocity of the air relative to the turning section: -(Omega x position)
    rot = azimuth_to_blade((ZERO, Om * az[2], -Om * az[1]), cone)
    return w[0] + rot[0], w[1] + rot[1]


WIND_IN = ["precone", "yaw", "tilt", "azimuth", "uinf", "omegarpm", "hubht", "shearexp"]


def call_curv(subs, checks=None):
    r = Exec(subs, checks=checks).call("definecurvature", [n_, arr("r"), arr("precurve"), arr("presweep"), G["precone"]] + [None] * 5)
    u = subs["definecurvature"]
    return dict(zip(["x", "y", "z", "cone", "s"], [r[k] for k in u.args[-5:]]))


def call_wind(subs, checks=None):
    u = subs["windcomponents"]
    r = Exec(subs, checks=checks).call("windcomponents", [n_, arr("r"), arr("precurve"), arr("presweep")] + [G[k] for k in WIND_IN] + [None, None])
    return r[u.args[-2]], r[u.args[-1]]


def call_tt(subs, checks=None, contracts=None):
    u = subs["thrusttorque"]
    r = Exec(subs, checks=checks, contracts=contracts).call("thrusttorque", [n_, arr("np"), arr("tp"), arr("r"), arr("precurve"), arr("presweep"), G["precone"], G["rhub"], G["rtip"],
                                                       G["precurvetip"], G["presweeptip"]] + [None] * 5)
    return dict(zip(["T", "Y", "Z", "Q", "M"], [r[k] for k in u.args[-5:]]))


def iname(c, skip=0):
    """the integer case of a path"""
    out = []
    for h, p in c.hyps:
        if h.kind == "i":
            out.append(("" if p else "not ") + "%r%s0" % (h.e, h.op))
    return " & ".join(out[1:])


def full_arrays(n=None, g=None, A=None):
    """blade with the hub and tip added: geometry given there, loads zero"""
    n, g, A = n if n is not None else n_, g or G, A or blade_arrays()

    def ext(first, k, last):
        def f(i):
            i = aff(i)
            if truth(cmp_("==", i, 1)):
                return first
            if truth(cmp_("==", i, n + 2)):
                return last
            return A[k](i - 1)
        return f
    return {"r": ext(g["rhub"], "r", g["rtip"]), "precurve": ext(ZERO, "precurve", g["precurvetip"]), "presweep": ext(ZERO, "presweep", g["presweeptip"]),
            "np": ext(ZERO, "np", ZERO), "tp": ext(ZERO, "tp", ZERO)}


def spec_totals(n=None, g=None, A=None):
    """integrands along the path (functions of the section of the full blade)
    and their trapezoidal sums"""
    n, g = n if n is not None else n_, g or G
    B = full_arrays(n, g, A)
    z = lambda i: spec_az(i, B, g["precone"])[2]
    cone = lambda i: spec_cone(i, B, g["precone"], n + 2)
    f = {"T": lambda i: B["np"](i) * fn("cos", cone(i)), "Y": lambda i: B["tp"](i), "Z": lambda i: B["np"](i) * fn("sin", cone(i)),
         "Q": lambda i: B["tp"](i) * z(i), "M": lambda i: B["np"](i) * z(i)}
    trap = lambda h: lsum(lambda i: (h(i) + h(i + 1)) * spec_ds(i, B) / 2, aff(1), n + 1)
    return {k: (lambda h=h: trap(h)) for k, h in f.items()}


def full_sym_arrays():
    return {k: (lambda i, k=k: elem(k, aff(i))) for k in ("r", "precurve", "presweep")}


def min_elem(e, names, full=False, n=None):
    """smallest section index among array elements of a term (full blade
    numbering: hub 1, sections 2..n+1, tip n+2), assuming it has any"""
    best = None
    for x in leaves(e):
        i = None
        if x.k == "elem" and x.a[0] in names:
            i = x.a[1] + (1 if full else 0)
        elif full and x.k == "sym" and x.a[0] == "rhub":
            i = aff(1)
        elif full and x.k == "sym" and x.a[0] == "rtip":
            i = (n if n is not None else n_) + 2
        if i is None:
            continue
        if best is None:
            best = i
        else:
            d = i - best
            if not d.is_const():
                # hub first, tip last
                if i.is_const() or best == (n if n is not None else n_) + 2:
                    best = i
                continue
            if d.c < 0:
                best = i
    return best


def segments_nonzero(full=True):
    """hypothesis: successive points of the blade are distinct"""
    from nf import is_zero

    def f(c):
        if c.op != "==":
            return None
        B = full_arrays() if full else blade_arrays()
        e = c.e
        if not any(x.k == "elem" and x.a[0] in ("r", "precurve", "presweep") for x in leaves(e)):
            return None
        m = canon_ints(ctx())
        if m:
            e = isubst(e, m)
        i = min_elem(e, ("r", "precurve", "presweep"), full)
        if i is None:
            return None
        try:
            d = spec_ds(i, B)
        except Split:
            return None
        d2 = d.a[1] if d.k == "fn" and d.a[0] == "sqrt" else d * d
        env = Env({}, _AnyInt(), {}, 5)
        for q in (1, -1):
            if is_zero(e * q - (isubst(d2, m) if m else d2), env, budget=2.0):
                return False
        return None
    return f


def delem(e, name, j):
    """derivative of a term (with sums over sections) w.r.t. element j of an array"""
    m, back = {}, {}
    for p in psum_leaves(e):
        h, body, b = p.a
        t = "#%d" % h
        tot = ZERO
        for idx in {x.a[1] for x in leaves(body) if x.k == "elem" and x.a[0] == name}:
            g = diff(body, lambda s: ZERO, lambda nm, i, idx=idx: ONE if nm == name and i == idx else ZERO)
            o = idx - ivar(t)
            if t in idx.vars():
                if t in o.vars():
                    raise Unsupported("index of a summand")
                q = aff(j) - o
                if truth(cmp_("<=", 1, q)) and truth(cmp_("<=", q, b)):
                    tot = tot + isubst(g, {t: q})
            elif truth(cmp_("==", idx, j)):
                tot = tot + psum_h(h, g, b)
        s = sym("@Q%d" % p.id)
        m[p] = s
        back[s] = (p, tot)
    e2 = nsubst(e, m)
    d = diff(e2, lambda s: back[s][1] if s in back else ZERO, lambda nm, i: ONE if nm == name and truth(cmp_("==", i, j)) else ZERO)
    return nsubst(d, {s: p for s, (p, _) in back.items()}) if back else d


TOT = ("T", "Y", "Z", "Q", "M")
BV_VEC = ("np", "tp", "r", "precurve", "presweep")
BV_SCAL = ("precone", "rhub", "rtip", "precurvetip", "presweeptip")


def opaque_curv(log=None):
    """contract of defineCurvature at a call site: outputs are opaque arrays;
    the arguments are logged"""
    def f(fr, u, v):
        if log is not None:
            log.append(v)
        m = v[0]
        names = ("x", "y", "z", "cone", "s")
        return {d: Array(k, m, lambda i, k=k: elem(k, i)) for d, k in zip(u.args[-5:], names)}
    return f


def opaque_curv_bv(log):
    """contract of DEFINECURVATURE_BV at a call site"""
    def f(fr, u, v):
        d = dict(zip(CBV, v))
        log.append(d)
        m = v[0]
        lanes = {"rb": "Gr", "precurveb": "Gprecurve", "presweepb": "Gpresweep"}
        out = {}
        for nm, dn in zip(CBV, u.args):
            if nm in lanes:
                out[dn] = Array(dn, m, lambda i, k=lanes[nm]: elem(k, i), lane=True)
            elif nm == "preconeb":
                out[dn] = sym("Gprecone")
            elif nm in ("x", "y", "z", "cone", "s"):
                out[dn] = Array(dn, m, lambda i, k=nm: elem(k, i))
            elif nm in ("xb", "zb", "coneb", "sb"):
                out[dn] = Array(dn, m, fr.undef_get(dn), lane=True)
        return out
    return f


CBV = ["n", "r", "rb", "precurve", "precurveb", "presweep", "presweepb", "precone", "preconeb", "x", "xb", "y", "z", "zb", "cone", "coneb", "s", "sb", "nbdirs"]


def call_bv(subs, contracts=None, checks=None):
    u = subs["thrusttorque_bv"]
    a = [n_]
    for k in BV_VEC:
        a += [arr(k), None]
    for k in BV_SCAL:
        a += [G[k], None]
    a += [sym("w_" + k) for k in TOT] + [ivar("nbdirs")]
    r = Exec(subs, contracts=contracts, checks=checks).call("thrusttorque_bv", a, lane=u.args[-1])
    out = {}
    for q, k in enumerate(BV_VEC + BV_SCAL):
        out[k] = r[u.args[2 + 2 * q]]
    return out
