"""Bounds, shapes and definedness of every kernel, for any number of sections and directions."""
from sect import *
import C08, C09, C10
TRUSTED = ["the Fortran rules for array sections, conformance and definition status as implemented in lib/fexec.py"]
ASSUMPTIONS = ["two or more sections", "elements are demanded through the outputs: a value computed into a variable that reaches no output is checked for bounds and shape, not for definedness",
               "f2py passes arrays of the sizes declared (exercised by the runtime contracts under compiler bounds checks)"]
FILE = "bem.f90:"


def tasks(tier):
    subs = load_fortran()
    out = []
    for f in FLAGS:
        out.append(("inductionFactors %r" % (f,), lambda R, f=f: scal(R, "inductionFactors", lambda ck: outs(subs, "inductionfactors", call_induction(subs, f, checks=ck)), ind_ctx())))
        sd = {k: sym(k + "d") for k in C08.NAMES}
        out.append(("INDUCTIONFACTORS_DV %r" % (f,), lambda R, f=f, sd=sd: scal(R, "INDUCTIONFACTORS_DV", lambda ck: outs(subs, "inductionfactors_dv", call_induction_dv(subs, f, sd, checks=ck)), ind_ctx())))
    out.append(("relativeWind", lambda R: scal(R, "relativeWind", lambda ck: rw(subs, ck, False), rwctx())))
    out.append(("RELATIVEWIND_DV", lambda R: scal(R, "RELATIVEWIND_DV", lambda ck: rw(subs, ck, True), rwctx())))
    out.append(("defineCurvature", lambda R: vec(R, "defineCurvature", lambda ck: list(call_curv(subs, ck).values()), 2)))
    out.append(("windComponents", lambda R: vec(R, "windComponents", lambda ck: list(call_wind(subs, ck)), 2, True)))
    out.append(("thrustTorque", lambda R: vec(R, "thrustTorque", lambda ck: list(tt(subs, ck)), 1)))
    out.append(("WINDCOMPONENTS_DV", lambda R: vec(R, "WINDCOMPONENTS_DV", lambda ck: wdv(subs, ck), 2, True)))
    for nm in ("DEFINECURVATURE_DV", "DEFINECURVATURE_DV2"):
        if nm.lower() in subs:
            out.append((nm, lambda R, nm=nm: vec(R, nm, lambda ck: cdv(subs, nm.lower(), ck), 2, nz=nm.endswith("2"))))
    out.append(("DEFINECURVATURE_BV", lambda R: vec(R, "DEFINECURVATURE_BV", lambda ck: cbv(subs, ck), 3, nz=True)))
    out.append(("THRUSTTORQUE_BV", lambda R: vec(R, "THRUSTTORQUE_BV", lambda ck: tbv(subs, ck), 1)))
    return out


def outs(subs, name, d):
    u = subs[name]
    return [d[k] for k in d if d[k] is not None]


def rwctx():
    c = C08.rw_ctx()
    arg = (S["vx"] * (1 - S["a"])) ** 2 + (S["vy"] * (1 + S["ap"])) ** 2
    c.assume(*cmp_("!=", arg, ZERO))
    return c


def rw(subs, ck, dv):
    sd = {k: sym(k + "d") for k in C08.RW}
    d = C08.call_rw_dv(subs, sd, checks=ck) if dv else C08.call_rw(subs, checks=ck)
    return list(d.values())


def tt(subs, ck):
    return list(call_tt(subs, ck).values())


def wdv(subs, ck):
    return list(C09.call_dv(subs, ck).values())


def cdv(subs, name, ck):
    u = subs[name]
    darr = C09.darr
    m = {"n": n_, "nbdirs": ivar("nbdirs"), "precone": G["precone"], "preconed": C09.dseed("precone")}
    for k in ("r", "precurve", "presweep"):
        m[k], m[k + "d"] = arr(k), darr(k)
    r = Exec(subs, checks=ck).call(name, [m.get(a) for a in u.args], lane="nbdirs" if "nbdirs" in u.args else u.args[-1])
    return [r[a] for a in u.args if a not in m]


def cbv(subs, ck):
    r = C10.cbv(subs, ck)
    return [r[k] for k in ("rb", "precurveb", "presweepb", "preconeb")]


def tbv(subs, ck):
    def sized(h):
        def f(fr, u, v):
            for d, a in zip(u.args, v):
                if isinstance(a, Array):
                    fr.check("argument %s of %s has its declared size" % (d, u.name), ctx().entails_int("==", a.size, aff(v[0])), "%r vs %r" % (a.size, v[0]))
            for k, a in zip(u.args, v):
                if isinstance(a, Array) and u.decl[k]["intent"] == "in":
                    a.get(j_) if truth(cmp_("<=", j_, a.size)) else None
            if u.name.lower().endswith("_bv"):
                for nm, a in zip(CBV, v):
                    if nm in ("zb", "coneb", "sb"):
                        a.get(j_)
            return h(fr, u, v)
        return f
    b = call_bv(subs, {"definecurvature": sized(opaque_curv()), "definecurvature_bv": sized(opaque_curv_bv([]))}, ck)
    return list(b.values())


def note(R, func, ck, tag):
    seen = {}
    for kind, where, ok, det in ck.items:
        k = (kind, where)
        seen[k] = seen.get(k, True) and ok
    for (kind, where), ok in sorted(seen.items()):
        nm = "%s: %s at %s" % (func, kind, where)
        if (nm, ok) not in R.done:
            R.done.add((nm, ok))
            R.add(nm, "proved" if ok else "refuted-static", "difference bounds / z3", 0.0, func=FILE + func)


def scal(R, func, call, c0):
    R.done = set()
    ck = [None]

    def run():
        ck[0] = Checks()
        o = call(ck[0])
        for k, v in enumerate(o):
            if not isinstance(v, Node):
                raise Undef("output %d of %s not set" % (k, func))
        return len(o), ck[0]
    for c, (n, k) in explore(run, c0):
        note(R, func, k, "")
        R.add("%s: all %d outputs set [%s]" % (func, n, path(c)), "proved", "executor", 0.0, func=FILE + func)


def path(c):
    return "%d case(s), last %r" % (len(c.hyps), c.hyps[-1][1]) if c.hyps else ""


def vec(R, func, call, nmin, ground=False, nz=False):
    R.done = set()

    def run():
        ck = Checks()
        o = call(ck)
        for k, v in enumerate(o):
            if v is None:
                raise Undef("output %d of %s not set" % (k, func))
            if isinstance(v, Array):
                if truth(cmp_("<=", j_, v.size)):
                    v.get(j_)
        return len(o), ck
    c0 = sect_ctx(nmin=nmin, j=False)
    c0.assume(Cond("i", "<=", aff(1) - j_))
    c0.assume(Cond("i", "<=", j_ - n_ - (2 if func == "THRUSTTORQUE_BV" else 0)))
    if nz:
        c0.forall = [segments_nonzero(full=False)]
    if ground:
        az = spec_az(j_, blade_arrays(), G["precone"])
        h = hub_to_yaw(azimuth_to_hub(az, G["azimuth"]), G["tilt"])[2]
        c0.assume(*cmp_("<", ZERO, 1 + h / G["hubht"]))
    for c, (n, k) in explore(run, c0):
        note(R, func, k, "")
        R.add("%s: every element j of %d outputs set [%s]" % (func, n, iname(c)), "proved", "executor", 0.0, func=FILE + func)
