from kern import *

FUNC = "bem.f90:inductionFactors"


TRUSTED = ["the BEM relations as written in lib/kern.py:spec_induction"]
ASSUMPTIONS = ["call obligations: assumptions of C04", "Rhub < r < Rtip, chord > 0, B >= 1, sin(phi) and cos(phi) nonzero, Vx and Vy nonzero",
               "real arithmetic: rounding of double precision is not modelled in the proof (the runtime contracts run the compiled code)",
               "parameters declared REAL*8 hold their mathematical values; pi literals are taken as pi"]


def tasks(tier):
    subs = load_fortran()
    out = [("inductionFactors[useCd=%d hub=%d tip=%d wake=%d]" % f, lambda R, f=f: one(R, subs, f)) for f in FLAGS]
    out.append(("lemmas", lemmas))
    for it, d in ((1, False), (1, True), (2, False)):
        out.append(("call: iterRe=%d derivatives=%s" % (it, d), lambda R, it=it, d=d: call(R, subs, it, d)))
    return out


def call(R, subs, iterRe, derivatives):
    """the Python caller hands every section's own data, the rotor's radii, blade
    count and switches to the kernel, and reports the factors it returns"""
    import C04
    C04.sections(R, subs, iterRe, derivatives, True)


def one(R, subs, flags):
    def run():
        got = call_induction(subs, flags)
        want = spec_induction(*flags)
        return got, want
    for c, (got, want) in explore(run, ind_ctx()):
        w = dict(kernel="inductionfactors", flags=flags)
        tag = "inductionFactors[useCd=%d hub=%d tip=%d wake=%d] %s:" % (*flags, path_name(c))
        near = near_singular(c)
        if near is None:
            R.eq(tag + " post a", got["a"], want["a"], c, FUNC, dict(w, out="a"))
            R.eq(tag + " post fzero", got["fzero"], want["fzero"], c, FUNC, dict(w, out="fzero"))
        else:
            regularised(R, tag, flags, got, want, c)
        R.eq(tag + " post ap", got["ap"], want["ap"], c, FUNC, dict(w, out="ap"))


def near_singular(c):
    """the path keeps a quantity that makes the empirical formula 0/0 within a
    small positive tolerance: returns the tolerance"""
    for h, p in c.hyps[9:]:
        if h.kind == "r" and h.op in ("<", "<=") and p and h.e.k == "add":
            d = dict(h.e.a)
            t = -d.get(ONE, 0)
            if 0 < t <= Fr(1, 10000) and len(d) == 2 and any(x.k == "fn" and x.a[0] == "abs" for x in d):
                return t
    return None


def regularised(R, tag, flags, got, want, c):
    """within the tolerance around the removable singularity the value may
    differ from the empirical relation by at most 2e-6.  The code's terms are
    rewritten in k and F: chord is expressed by k, one loss factor by F."""
    K, F = sym("K"), sym("F")
    u, hub, tip, wake = flags
    ac = sorted({x for x in subterms(want["F"]) if x.k == "fn" and x.a[0] == "acos"}, key=lambda x: x.id)
    m = {}
    if ac:
        rest = ONE
        for x in ac[1:]:
            rest = rest * (2 / PI * x)
        m[ac[0]] = PI / 2 * F / rest
    else:
        F = ONE
    s, co = fn("sin", S["phi"]), fn("cos", S["phi"])
    cn = S["cl"] * co + (S["cd"] * s if u else ZERO)
    X = sym("X")     # sqrt(g2), which determines k
    KX = (X ** 2 + (Fr(4, 3) - F) * F) / (2 * F)
    mc = {S["chord"]: KX * 4 * F * s ** 2 * 2 * PI * S["r"] / (S["b"] * cn)}
    sx = fn("sqrt", X ** 2)
    sub = lambda e: deep_simp(nsubst(deep_simp(nsubst(nsubst(e, m), mc)), {sx: X}))
    c2 = Ctx()
    c2.use_z3_real = True
    c2.assume(*cmp_("<", ZERO, F)) if F is not ONE else None
    c2.assume(*cmp_("<=", F, ONE)) if F is not ONE else None
    c2.assume(*cmp_("<=", ZERO, X))
    for h, p in c.hyps[9:]:
        if h.kind == "r":
            e = sub(h.e)
            v = {x for x in subterms(e) if x.k == 'sym' and x is not PI}
            if X in v and v <= {X, F}:
                c2.assume(Cond("r", h.op, e), p)
    tol = Fr(2, 10 ** 6)
    da = sub(got["a"]) - sub(want["a"])
    df = sub((got["fzero"] - want["fzero"]) / s)
    for nm, d in (("a", da), ("fzero/sin(phi)", df)):
        d = deep_simp(d)
        R.goal(tag + " post %s within 2e-6" % nm, *cmp_("<=", d, tol), c2, FUNC, timeout=20000)
        R.goal(tag + " post %s within -2e-6" % nm, *cmp_(">=", d, -tol), c2, FUNC, timeout=20000)


def subterms(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st.extend(children(x))
    return seen


def deep_simp(e, memo=None):
    """normal form of e, inside the arguments of kernels too"""
    memo = {} if memo is None else memo
    m = {}
    for x in sorted(top_fns(e), key=lambda x: x.id):
        m[x] = fn(x.a[0], *[deep_simp(t, memo) for t in x.a[1:]])
    return simp(nsubst(e, m) if m else e)


def top_fns(e):
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "fn":
            out.add(x)
            continue
        st.extend(children(x))
    return out


def simp(d):
    from nf import Norm
    N = Norm(None)
    return addn([scale(mono_node(N, m), q) for m, q in N.poly(d).items()])


def path_name(c):
    return " & ".join(("" if p else "not ") + show(h.e, 2) + h.op + "0" for h, p in c.hyps[9:])


def lemmas(R):
    """the specification functions are the balances of the property"""
    k, F, a = sym("K"), sym("F"), sym("a")
    c = Ctx()
    am = k / (1 + k)
    R.eq("lemma momentum: k(1-a) = a", k * (1 - am), am, None, "spec")
    s = fn("sqrt", 2 * F * k - (Fr(4, 3) - F) * F)
    ab = 1 - 1 / (s + Fr(5, 3) - F)
    R.eq("lemma Buhl: 8/9 + (4F-40/9)a + (50/9-4F)a^2 = 4Fk(1-a)^2",
         Fr(8, 9) + (4 * F - Fr(40, 9)) * ab + (Fr(50, 9) - 4 * F) * ab ** 2, 4 * F * k * (1 - ab) ** 2, None, "spec")
    apr = k / (k - 1)
    R.eq("lemma brake: k(1-a) = -a", k * (1 - apr), -apr, None, "spec")
    # residual zero exactly when tan(phi) = Vx(1-a)/(Vy(1+ap))
    kp, sp, cp, Vx, Vy = sym("KP"), sym("SP"), sym("CP"), sym("Vx"), sym("Vy")
    ap = kp / (1 - kp)
    f = sp / (1 - a) - cp * Vx / Vy * (1 - kp)
    R.eq("lemma residual: f Vy (1+ap)(1-a) = Vy(1+ap) sin(phi) - Vx(1-a) cos(phi)",
         f * Vy * (1 + ap) * (1 - a), Vy * (1 + ap) * sp - Vx * (1 - a) * cp, None, "spec")
    fb = sp * (1 - k) - cp * Vx / Vy * (1 - kp)
    R.eq("lemma residual (brake): 1-k = 1/(1-a)", 1 / (1 - apr), 1 - k, None, "spec")
