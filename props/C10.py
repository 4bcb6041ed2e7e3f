from sect import *
FT, FC = "bem.f90:THRUSTTORQUE_BV", "bem.f90:DEFINECURVATURE_BV"
TRUSTED = ["symbolic differentiation of the sums (lib/ir.py:diff, lib/sect.py:delem)", "chain rule: gradient through defineCurvature = sum over its outputs of adjoint times partial derivative",
           "summation by parts: sum_i sb(i) s(i) = sum_q ds(q) sum_(i>q) sb(i)"]
ASSUMPTIONS = ["call obligations: assumptions of C12", "one or more sections; successive points of the blade (hub, sections, tip) are distinct", "real arithmetic",
               "directions are processed independently (checked by the executor)"]
EXPLANATION = ("DEFINECURVATURE_BV against the derivatives of the terms computed by defineCurvature, for any adjoints; THRUSTTORQUE_BV, with the two callees replaced by their contracts, "
               "against the derivatives of the terms computed by thrustTorque")
GEO = ("r", "precurve", "presweep")


def tasks(tier):
    subs = load_fortran()
    out = [("DEFINECURVATURE_BV %s" % k, lambda R, k=k: curv_vec(R, subs, k)) for k in GEO]
    out.append(("DEFINECURVATURE_BV precone", lambda R: curv_precone(R, subs)))
    out.append(("THRUSTTORQUE_BV calls", lambda R: calls(R, subs)))
    for k in ("np", "tp"):
        out.append(("THRUSTTORQUE_BV %s" % k, lambda R, k=k: loads(R, subs, k)))
    out.append(("THRUSTTORQUE_BV geometry", lambda R: geometry(R, subs)))
    for k in ("z", "cone", "s"):
        out.append(("THRUSTTORQUE_BV adjoint %s" % k, lambda R, k=k: adjoint(R, subs, k)))
    for o in "TQMYZ":
        out.append(("call: %s" % o, lambda R, o=o: call(R, subs, o)))
    return out


def call(R, subs, o):
    """the Python caller takes the rotor's gradients from the adjoints"""
    import C12
    for k in {"T": ["T"], "Q": ["Q"], "M": ["Mb"], "Y": ["Y"], "Z": ["Z"]}[o]:
        C12.grads(R, subs, "sectors > 4", k)


# ------------------------------------------------------ DEFINECURVATURE_BV
def cbv(subs, checks=None):
    u = subs["definecurvature_bv"]
    lane = lambda k: Array(k, n_, lambda i: elem(k, i), lane=True)
    v = {"n": n_, "precone": G["precone"], "nbdirs": ivar("nbdirs"), "zb": lane("zb"), "coneb": lane("coneb"), "sb": lane("sb")}
    for k in GEO:
        v[k] = arr(k)
    r = Exec(subs, checks=checks).call("definecurvature_bv", [v.get(k) for k in CBV], lane=u.args[-1])
    return {k: r[d] for k, d in zip(CBV, u.args)}


def psi_terms(subs):
    """sum of adjoint times output, the path length by summation by parts"""
    p = call_curv(subs)
    A = blade_arrays()
    zc = lsum(lambda i: p["z"].get(i) * elem("zb", i) + p["cone"].get(i) * elem("coneb", i), aff(1), n_)
    return zc


def ds_code(p, q):
    """s(q+1) - s(q) as computed by the code"""
    return p["s"].get(q + 1) - p["s"].get(q)


def psi_s(subs, k):
    """derivative of sum_i sb(i) s(i) w.r.t. element j of k"""
    p = call_curv(subs)
    tot = ZERO
    for q in (j_ - 1, j_):
        if truth(cmp_("<=", 1, q)) and truth(cmp_("<", q, n_)):
            d = ds_code(p, q)
            S = lsum(lambda i: elem("sb", i), q + 1, n_)
            tot = tot + S * delem(d, k, j_)
    return tot


def cctx(j):
    c = sect_ctx(nmin=3, j=j)
    c.forall = [segments_nonzero(full=False)]
    return c


def curv_vec(R, subs, k):
    def run():
        return cbv(subs)[k + "b"].get(j_), delem(psi_terms(subs), k, j_) + psi_s(subs, k)
    for c, (got, want) in explore(run, cctx(True)):
        SEEDS[0] = {"zb", "coneb", "sb"}
        R.eq("DEFINECURVATURE_BV [%s]: adjoint of %s(j)" % (iname(c), k), got, want, c, FC)


def curv_precone(R, subs):
    def run():
        return cbv(subs)["preconeb"], diff(psi_terms(subs), lambda s: ONE if s.a[0] == "precone" else ZERO, lambda a, i: ZERO)
    for c, (got, want) in explore(run, cctx(False)):
        SEEDS[0] = {"zb", "coneb", "sb"}
        R.eq("DEFINECURVATURE_BV [%s]: adjoint of precone" % iname(c), got, want, c, FC)


# --------------------------------------------------------- THRUSTTORQUE_BV
def bv(subs):
    l1, l2 = [], []
    b = call_bv(subs, {"definecurvature": opaque_curv(l1), "definecurvature_bv": opaque_curv_bv(l2)})
    if len(l1) != 1 or len(l2) != 1:
        raise Unsupported("calls of defineCurvature")
    return b, l1[0], l2[0]


def total(subs, log=None):
    p = call_tt(subs, contracts={"definecurvature": opaque_curv(log)})
    return addn([mul(sym("w_" + k), p[k]) for k in TOT])


def tctx(i):
    """j ranges over the sections, or over the points of the full blade"""
    c = sect_ctx(nmin=1, j=False)
    c.assume(Cond("i", "<=", aff(1) - j_))
    c.assume(Cond("i", "<=", j_ - n_ - (2 if i == "full" else 0)))
    return c


def calls(R, subs):
    def run():
        _, a, b = bv(subs)
        lp = []
        total(subs, lp)
        B = full_arrays()
        out = []
        for q, k in enumerate(GEO):
            want = B[k](j_)
            out += [("defineCurvature", k, lp[0][1 + q].get(j_), want), ("DEFINECURVATURE", k, a[1 + q].get(j_), want), ("DEFINECURVATURE_BV", k, b[k].get(j_), want)]
        for v, nm in ((lp[0], "defineCurvature"), (a, "DEFINECURVATURE")):
            out.append((nm, "precone", v[4], G["precone"]))
            out.append((nm, "n", aff_node(v[0]), aff_node(n_ + 2)))
        out.append(("DEFINECURVATURE_BV", "precone", b["precone"], G["precone"]))
        out.append(("DEFINECURVATURE_BV", "n", aff_node(b["n"]), aff_node(n_ + 2)))
        return out
    for c, res in explore(run, tctx("full")):
        for nm, k, got, want in res:
            R.eq("call of %s [%s]: argument %s" % (nm, iname(c), k), got, want, c, FT)


def loads(R, subs, k):
    def run():
        return bv(subs)[0][k].get(j_), delem(total(subs), k, j_)
    for c, (got, want) in explore(run, tctx("sect")):
        SEEDS[0] = {"np", "tp"}
        R.eq("THRUSTTORQUE_BV [%s]: gradient w.r.t. %s(j)" % (iname(c), k), got, want, c, FT)


def geometry(R, subs):
    """the geometry adjoints are those of the full blade, scattered back"""
    def run():
        b, _, _ = bv(subs)
        out = [(k + "(j)", b[k].get(j_), elem("G" + k, j_ + 1)) for k in GEO]
        out += [("precone", b["precone"], sym("Gprecone")), ("rhub", b["rhub"], elem("Gr", aff(1))), ("rtip", b["rtip"], elem("Gr", n_ + 2)),
                ("precurvetip", b["precurvetip"], elem("Gprecurve", n_ + 2)), ("presweeptip", b["presweeptip"], elem("Gpresweep", n_ + 2))]
        return out
    for c, res in explore(run, tctx("sect")):
        for k, got, want in res:
            R.eq("THRUSTTORQUE_BV [%s]: gradient w.r.t. %s" % (iname(c), k), got, want, c, FT)


def adjoint(R, subs, k):
    def run():
        return bv(subs)[2][k + "b"].get(j_), delem(total(subs), k, j_)
    for c, (got, want) in explore(run, tctx("full")):
        SEEDS[0] = {"np", "tp"}
        R.eq("THRUSTTORQUE_BV [%s]: adjoint of %s(j) handed to DEFINECURVATURE_BV" % (iname(c), k), got, want, c, FT)
