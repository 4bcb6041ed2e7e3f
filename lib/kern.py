"""Specification functions and contexts for the scalar section kernels."""
import random
import mpmath
from mpmath import mpf
from ir import *
import ir
from ctx import *
from fexec import *
from obl import *

IND_IN = ["r", "chord", "rhub", "rtip", "phi", "cl", "cd", "b", "vx", "vy"]
S = {k: sym(k) for k in IND_IN + ["a", "ap", "pitch", "theta", "rho", "mu"]}
FLAGS = [(u, h, t, w) for u in (True, False) for h in (True, False) for t in (True, False) for w in (True, False)]


def F_spec(hub, tip):
    r, B, sp = S["r"], S["b"], fn("abs", fn("sin", S["phi"]))
    F = ONE
    if tip:
        F = F * (2 / PI * fn("acos", fn("exp", -(B / 2 * (S["rtip"] - r) / (r * sp)))))
    if hub:
        F = F * (2 / PI * fn("acos", fn("exp", -(B / 2 * (r - S["rhub"]) / (S["rhub"] * sp)))))
    return F


def spec_induction(useCd, hub, tip, wake, buhl_only_reg=True):
    """(fzero, a, ap) of blade element momentum theory; decides the regime in
    the current context"""
    r, chord, phi, cl, cd, B = (S[k] for k in ("r", "chord", "phi", "cl", "cd", "b"))
    Vx, Vy = S["vx"], S["vy"]
    s, c = fn("sin", phi), fn("cos", phi)
    sig = B * chord / (2 * PI * r)
    drag = cd if useCd else ZERO
    cn = cl * c + drag * s
    ct = cl * s - drag * c
    F = F_spec(hub, tip)
    k = sig * cn / (4 * F * s ** 2)
    kp = sig * ct / (4 * F * s * c)
    if truth(cmp_(">", phi, 0)):
        if truth(cmp_("<=", k, Fr(2, 3))):
            a = k / (1 + k)
        else:
            g2 = 2 * F * k - (Fr(4, 3) - F) * F
            a = 1 - 1 / (fn("sqrt", g2) + Fr(5, 3) - F)
    else:
        if truth(cmp_(">", k, 1)):
            a = k / (k - 1)
        else:
            a = ZERO
    ap = kp / (1 - kp) if wake else ZERO
    kpe = kp if wake else ZERO
    tail = c * Vx / Vy * (1 - kpe)
    if truth(cmp_(">", phi, 0)):
        fz = s / (1 - a) - tail
    else:
        fz = s * (1 - k) - tail
    return dict(fzero=fz, a=a, ap=ap, k=k, kp=kp, F=F, s=s, c=c)


def ind_env(k, c, phi_sign=None):
    rnd = random.Random(1000003 * k + 17)
    u = lambda a, b: mpf(rnd.uniform(a, b))
    d = {}
    d["rhub"] = u(0.3, 3)
    d["rtip"] = d["rhub"] + u(2, 60)
    d["r"] = d["rhub"] + (d["rtip"] - d["rhub"]) * u(0.02, 0.98)
    d["chord"] = u(0.05, 0.5) * d["r"]
    mode = k % 6
    ph = {0: u(0.05, 1.5), 1: u(0.02, 0.25), 2: -u(0.05, 0.78), 3: u(0.1, 0.6), 4: -u(0.02, 0.3), 5: u(1.58, 3.1)}[mode]
    d["phi"] = ph
    d["cl"] = u(-1.5, 2) if rnd.random() < 0.5 else u(0.2, 2)
    d["cd"] = u(0.004, 0.6)
    d["b"] = mpf(rnd.choice([1, 2, 3, 4]))
    d["vx"] = u(2, 20)
    d["vy"] = u(2, 80)
    for nm in ("rd", "chordd", "rhubd", "rtipd", "phid", "cld", "cdd", "vxd", "vyd", "ad", "apd", "pitchd", "thetad"):
        d[nm] = u(-1, 1)
    d["a"] = u(-0.5, 0.9) if k % 5 else u(-40, 40)
    d["ap"] = u(-0.5, 0.9) if k % 7 else u(-40, 40)
    d["pitch"], d["theta"] = u(-0.2, 0.3), u(-0.3, 0.6)
    d["rho"], d["mu"] = u(0.5, 2), u(1e-5, 2e-5)
    return Env(d, {}, {}, k)


def ind_ctx():
    c = Ctx(ind_env)
    A = lambda op, x, y, p=True: c.assume(*_c(op, x, y))

    def _c(op, x, y):
        cc, pol = cmp_(op, x, y)
        return cc, pol
    A("<", ZERO, S["rhub"])
    A("<", S["rhub"], S["r"])
    A("<", S["r"], S["rtip"])
    A("<", ZERO, S["chord"])
    A("<=", ONE, S["b"])
    A("!=", fn("sin", S["phi"]), ZERO)
    A("!=", fn("cos", S["phi"]), ZERO)
    A("!=", S["vx"], ZERO)
    A("!=", S["vy"], ZERO)
    return c


def load_fortran():
    import os
    p = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "ccblade", "src", "bem.f90")
    return parse_file(open(p).read())


def call_induction(subs, flags, checks=None):
    u, h, t, w = flags
    ex = Exec(subs, checks=checks)
    sub = subs["inductionfactors"]
    vals = [S[k] for k in IND_IN] + [u, h, t, w] + [None] * 3
    r = ex.call("inductionfactors", vals)
    o = sub.args[-3:]
    return dict(fzero=r[o[0]], a=r[o[1]], ap=r[o[2]])


def call_induction_dv(subs, flags, seeds, checks=None):
    u, h, t, w = flags
    ex = Exec(subs, checks=checks)
    sub = subs["inductionfactors_dv"]
    d = lambda k: seeds.get(k, ZERO)
    vals = []
    for k in ["r", "chord", "rhub", "rtip", "phi", "cl", "cd"]:
        vals += [S[k], d(k)]
    vals += [S["b"], S["vx"], d("vx"), S["vy"], d("vy"), u, h, t, w] + [None] * 6 + [ivar("nbdirs")]
    r = ex.call("inductionfactors_dv", vals, lane=sub.args[-1])
    o = sub.args[-7:-1]
    return {k: r[v] for k, v in zip(["fzero", "fzerod", "a", "ad", "ap", "apd"], o)}


def directional(e, seeds):
    m = {S[k]: v for k, v in seeds.items()}
    return diff(e, lambda s: m.get(s))
