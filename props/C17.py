"""writeToAerodynFile and initFromAerodynFile: files written are read back as the same airfoil."""
from afpstub import *
import symfile
import C15
from symfile import Rep, marker
FW, FR = "airfoilprep.py:Airfoil.writeToAerodynFile", "airfoilprep.py:Airfoil.initFromAerodynFile"
TRUSTED = ["files by lib/symfile.py: a file is the sequence of lines written; a number formatted with d decimals reads back as the decimal of d digits nearest to it",
           "numpy by lib/npshim.py, sorted by its documented contract"]
ASSUMPTIONS = ["interpToCommonAlpha by its contract (proved in the last task): the tables at one common list of angles; unsteadyparam: eight numbers",
               "reading: at least one blank between the numbers of a row, four columns", "real arithmetic"]


def tasks(tier):
    return [("written and read back", roundtrip), ("read", read), ("constructor", polar_), ("interpToCommonAlpha", lambda R: C15.common(R, False))]


MEGA = num(1000000)


def reads(g, want):
    """g is want to six or more digits after the point"""
    if g is want:
        return True
    if g.k != "fn" or len(g.a) != 2 or g.a[1] is not want:
        return False
    m = symfile.re.fullmatch(r"(dec|sige|sigE|sigg|sigG)(\d+)", g.a[0])
    return bool(m) and int(m.group(2)) >= {"dec": 6, "sige": 9, "sigE": 9, "sigg": 10, "sigG": 10}[m.group(1)]


def reads_re(g, want):
    if g.k == "num":
        return False
    g, want = pyex.node(V(g)) / MEGA, want / MEGA
    return reads(g, want)


def rekey(e, q):
    return reads_re(e, P("", q).Re)


def fields(p, n):
    return all(size1(getattr(p, k), n) for k in QS)


def roundtrip(R):
    base_ = af_ctx([cmp_("<=", 1, m_), cmp_("<=", 1, n_), cmp_("<=", 0, i_), cmp_("<", i_, m_), cmp_("<=", 0, j_), cmp_("<", j_, n_)])
    pyex.ALIGN[0] = (m_, "i")
    pyex.SORTED[0] = rekey

    def run():
        files = {}
        M = airfoilprep()
        M["open"] = symfile.opener(files)
        pyex.MACH.texts = symfile
        made = {}

        def one(k):
            k = aff(k)
            if k not in made:
                made[k] = P("", k, n_, common=True).make(M)
            return made[k]
        common = M["Airfoil"].__new__(M["Airfoil"])
        common.polars = SymSeq(m_, one)
        common.polar_type = M["Polar"]
        calls = []

        def to_common(self, *a, **k):
            calls.append((self, a, k))
            return common
        M["Airfoil"].interpToCommonAlpha = to_common
        M["Polar"].unsteadyparam = lambda s, *a, **k: tuple(V(fn("param%d" % q, aff_node(aff(s._spec.k)))) for q in range(8))
        af = airfoil(M)
        name = "file.dat"
        r = af.writeToAerodynFile(name)
        written = r is None and list(files) == [name] and len(calls) == 1 and calls[0][0] is af and not calls[0][1] and not calls[0][2]
        old = all(unchanged(p) for p in list(made.values()) + list(af.polars.made.values())) and type(af.polars) is Polars
        back = M["Airfoil"].initFromAerodynFile(name)
        ps = back.polars
        ps = pyex.unl(ps)
        ok = type(back) is M["Airfoil"] and isinstance(ps, SymSeq) and not isinstance(ps, pyex.SortedSeq) and same_dim(ps.n, m_)
        got = None
        if ok:
            p = ps.get(i_)
            ok = type(p) is M["Polar"] and fields(p, n_)
            if ok:
                got = {k: lift(getattr(p, k).at(j_)) for k in QS}
                got["Re"] = node(p.Re)
        return written, old, ok, got, not pyex.MACH.foreign and list(files) == [name]
    for c, (written, old, ok, got, fr), m in runs(run, base_):
        R.eq("one file of that name, complete and closed, at the common angles", num(int(written)), ONE, c, FW)
        R.eq("the airfoil written is unchanged", num(int(old)), ONE, c, FW)
        R.eq("as many tables as polars, in order, as many rows as angles", num(int(ok)), ONE, c, FR)
        R.eq("nothing else written", num(int(fr)), ONE, c, FR)
        if got:
            p = P("", i_, n_, common=True)
            for k in QS:
                R.eq("%s(i, j) as written, to the digits of the format: %s" % (k, show(got[k])), num(int(reads(got[k], p.at(k, j_)))), ONE, c, FW)
            R.eq("Reynolds number (i) as written, to the digits of the format: %s" % show(got["Re"]), num(int(reads_re(got["Re"], p.Re))), ONE, c, FW)


def nrows(k):
    return ivar("N[%r]" % (aff(k),))


def read(R):
    base_ = af_ctx([cmp_("<=", 1, m_), cmp_("<=", 0, i_), cmp_("<", i_, m_), cmp_("<=", 0, j_), cmp_("<", j_, nrows(i_))])
    pyex.ALIGN[0] = (m_, "i")
    pyex.SORTED[0] = None
    r, t = ivar("%r"), ivar("%t")

    def table(k, *a):
        return fn("file." + k, *[aff_node(x) for x in a])

    def text(k, *a):
        return marker(table(k, *a), "exact")

    def run():
        M = airfoilprep()
        pyex.MACH.texts = symfile
        rows = Rep(lambda m: nrows(m["%r"]), "%t", ["  " + " \t ".join(text(k, r, t) for k in QS) + "\n"])
        body = ["%s   Reynolds number in millions\n" % text("Re", r)] + ["%s  parameter %d\n" % (text("param%d" % k, r), k) for k in range(8)] + [rows, " EOT \n"]
        files = {"af.dat": ["AeroDyn airfoil file.\n", "anything 1 2 3 EOTx\n", "line three\n", marker(aff_node(m_), "int") + "\t\tNumber of airfoil tables in this file\n", Rep(m_, "%r", body)]}
        M["open"] = symfile.opener(files)
        made = []
        a = M["Airfoil"].initFromAerodynFile("af.dat")
        f = pyex.MACH.reading
        s = a.polars
        ok = type(a) is M["Airfoil"] and a.polar_type is M["Polar"] and isinstance(s, pyex.SortedSeq)
        got = None
        if ok:
            b = pyex.unl(s.base)
            ok = same_dim(b.n, m_)
            p = b.get(i_)
            ok = ok and type(p) is M["Polar"] and fields(p, nrows(i_)) and s.key is isubst(node(p.Re), {"i": s.q})
            if ok:
                got = [lift(getattr(p, k).at(j_)) for k in QS] + [node(p.Re)]
        whole = len(f) == 1 and f[0].item() is None and len(f[0].st) == 1
        return ok, whole, got, not pyex.MACH.foreign
    for c, (ok, whole, got, fr), m in runs(run, base_):
        R.eq("a polar of each table with as many angles as rows, in order of Reynolds number", num(int(ok)), ONE, c, FR)
        R.eq("file read to its end", num(int(whole)), ONE, c, FR)
        R.eq("no effects elsewhere", num(int(fr)), ONE, c, FR)
        if got:
            for k, g in zip(QS + ("Re",), got):
                R.eq("%s of table i, row j" % k, g, table(k, i_, j_) if k != "Re" else table(k, i_) * MEGA, c, FR)


def polar_(R):
    """Polar keeps the data it is given"""
    base_ = af_ctx([cmp_("<=", 1, n_), cmp_("<=", 0, j_), cmp_("<", j_, n_)])
    p = P("", None, n_)

    def run():
        M = airfoilprep()
        o = M["Polar"](V(p.Re), *[p.arr(k) for k in QS])
        return fields(o, n_), [lift(getattr(o, k).at(j_)) for k in QS] + [node(o.Re)], not pyex.MACH.foreign
    for c, (ok, got, fr), m in runs(run, base_):
        R.eq("sizes", num(int(ok)), ONE, c, "airfoilprep.py:Polar.__init__")
        R.eq("arguments unchanged", num(int(fr)), ONE, c, "airfoilprep.py:Polar.__init__")
        for k, g in zip(QS + ("Re",), got):
            R.eq(k, g, p.Re if k == "Re" else p.at(k, j_), c, "airfoilprep.py:Polar.__init__")
