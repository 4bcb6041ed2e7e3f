from common import *
import gradients
RULE = ("random sequences of 2..6 analyses (distributed loads, totals, inverse analyses, gradients) on one rotor object, each compared with a freshly built rotor; caller arrays and airfoils compared before and "
        "after; sections coinciding with hub or tip; non-trivial always")
BUDGET = {"quick": 90, "thorough": 1000}


def cases(seed, tier):
    k = 1 if tier == "quick" else 25
    return seeds(seed, {"history": 160 * k, "construction": 200 * k})


def snapshot(o, depth=0):
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, dict):
        return {k: snapshot(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [snapshot(v, depth + 1) for v in o]
    if isinstance(o, (int, float, str, bool, type(None))):
        return o
    if depth < 4 and hasattr(o, "__dict__"):
        return {k: snapshot(v, depth + 1) for k, v in vars(o).items() if k != "calls"}
    return None


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def run(R, op):
    import io, contextlib
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        k = op[0]
        if k == "loads":
            return snapshot(R.distributedAeroLoads(*op[1]))
        if k == "totals":
            o = R.evaluate(*[v.copy() for v in op[1]], coefficients=op[2])
            return snapshot(o)


def check(case):
    g = rng_of(case)
    f = Fails()
    n = int(g.choice([2, 3, 4]))
    d = rotor(g, n, at_ends=case["kind"] == "construction" or g.rand() < .3)
    if case["kind"] == "construction":
        if g.rand() < .4 and d["precurve"] is not None:
            d["precurveTip"] = float(d["precurve"][-1])
        if g.rand() < .4 and d["presweep"] is not None:
            d["presweepTip"] = float(d["presweep"][-1])
    af = gradients.airfoils(g, n)
    der = bool(g.rand() < .4)
    caller = {k: v for k, v in d.items()}
    before, afb = snapshot(caller), snapshot(af)
    ex = "rotor=%r" % ({k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()})
    import ccblade.ccblade as M
    def fresh():
        k = dict(caller)
        pos = [k.pop(x) for x in ("r", "chord", "theta")]
        Rhub, Rtip = k.pop("Rhub"), k.pop("Rtip")
        return M.CCBlade(*pos, af, Rhub, Rtip, derivatives=der, **k)
    R = fresh()
    f.true("construction leaves the caller's arrays alone", same(snapshot(caller), before), ex)
    r, pc, ps, pct, pst = effective(d)
    f.eq("section positions", R.r, r, 1e-13, 1e-13, ex)
    f.eq("precurve", R.precurve, pc, 1e-13, 1e-13, ex)
    f.eq("presweep", R.presweep, ps, 1e-13, 1e-13, ex)
    f.true("moved sections are strictly inside", d["Rhub"] < R.r[0] and R.r[-1] < d["Rtip"], ex)
    if case["kind"] == "construction":
        # changing the caller's arrays afterwards does not change the rotor
        op = ("loads", tuple(float(v[0]) for v in conditions(g, d)) + (30.0,))
        want = run(R, op)
        c2 = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}
        k = dict(c2)
        pos = [k.pop(x) for x in ("r", "chord", "theta")]
        Rhub, Rtip = k.pop("Rhub"), k.pop("Rtip")
        R3 = M.CCBlade(*pos, af, Rhub, Rtip, derivatives=der, **k)
        for v in c2.values():
            if isinstance(v, np.ndarray):
                v += 0.37
        f.true("rotor holds its own copies", same(run(R3, op), want), ex)
        return True, f, dict(r=R.r.tolist())
    ops = []
    for _ in range(int(g.choice([2, 3, 5]))):
        if g.rand() < .55:
            U, Om, p = [float(v[0]) for v in conditions(g, d)]
            if g.rand() < .2:
                Om = 0.0
            if g.rand() < .15:
                p = 85.0
            ops.append(("loads", (U, Om, p, float(azimuth_of(g, d)))))
        else:
            m = int(g.choice([1, 2]))
            ops.append(("totals", tuple(np.array(v) for v in conditions(g, d, m)), bool(g.rand() < .5)))
    ops.append(ops[0])
    opsb = snapshot([list(o[1]) for o in ops])
    first = None
    for k, op in enumerate(ops):
        got = run(R, op)
        want = run(fresh(), op)
        first = got if k == 0 else first
        if not f.true("result as from a fresh rotor", same(got, want), "call %d of %r; %s" % (k, [(o[0], [np.asarray(v).tolist() for v in o[1]]) for o in ops], ex)):
            break
    else:
        f.true("repeated calls identical", same(got, first), ex)
    f.true("analysis leaves the caller's arrays alone", same(snapshot(caller), before), ex)
    f.true("analysis leaves the airfoils alone", same(snapshot(af), afb), ex)
    f.true("analysis leaves the conditions alone", same(snapshot([list(o[1]) for o in ops]), opsb), ex)
    return True, f, dict(calls=[o[0] for o in ops])
