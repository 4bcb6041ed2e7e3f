"""Kernels built with the compiler's run-time checks, called on guarded and poisoned storage."""
from common import *
import ctypes
import os
import pickle
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
RULE = ("every kernel the library calls, built with gfortran -fcheck=all and undefined locals preset to NaN (and in a second build to zero), random arguments for every branch, 2 to 12 sections, 1 to 44 directions; outputs and "
        "heap poisoned with NaN bytes, guard words around every argument; the whole rotor analysis with gradients on the same build; non-trivial when the kernel has arrays")
BUDGET = {"quick": 90, "thorough": 1500}
KERNELS = ["inductionfactors", "relativewind", "windcomponents", "definecurvature", "thrusttorque", "inductionfactors_dv", "relativewind_dv",
           "windcomponents_dv", "thrusttorque_bv", "definecurvature_dv", "definecurvature_bv"]
CHK = ["-O1", "-fcheck=all", "-fno-stack-arrays", "-fmax-stack-var-size=8"]
LIBS = {}
SIG = {}
GUARD = 4


def prepare():
    """scratch builds; once, before the workers are forked"""
    if LIBS:
        return
    d = os.path.join(SCRATCH[0], "c22")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(SCRATCH[0], "ccblade", "src", "bem.f90")
    ps = []
    for nm, fl in (("nan", ["-finit-real=nan", "-finit-integer=-7777"]), ("zero", ["-finit-real=zero", "-finit-integer=0"])):
        so = os.path.join(d, nm + ".so")
        ps.append((nm, so, subprocess.Popen(["gfortran", "-shared", "-fPIC", "-w", "-J", d] + CHK + fl + [src, "-o", so], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    import build as lb
    import fparse
    try:
        SIG.update({k: v for k, v in fparse.parse_file(open(src).read()).items()})
    except Exception as e:
        SIG[None] = "%s: %s" % (type(e).__name__, e)
    # the whole package on a checked build
    import shutil
    pk = os.path.join(d, "pkg")
    shutil.copytree(os.path.join(SCRATCH[0], "ccblade"), os.path.join(pk, "ccblade"), ignore=shutil.ignore_patterns("*.so"))
    lb.build_ext(os.path.join(pk, "ccblade"), flags=CHK + ["-finit-real=nan"])
    LIBS["pkg"] = pk
    for nm, so, p in ps:
        o, _ = p.communicate()
        if p.returncode:
            raise RuntimeError("build failed " + o[-2000:])
        LIBS[nm] = so


def cases(seed, tier):
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("--pkg")
    SCRATCH[0] = a.parse_known_args()[0].pkg
    prepare()
    k = 1 if tier == "quick" else 20
    c = {"rotor": 24 * k}
    if None not in SIG:
        for K in KERNELS:
            if K in SIG:
                c[K] = 30 * k
    return seeds(seed, c, 1)


def ev(e, env):
    t = e[0]
    if t in ("int", "num"):
        return int(e[1])
    if t in ("name", "var", "id"):
        return env[e[1]]
    if t == "+":
        return ev(e[1], env) + ev(e[2], env)
    if t == "-":
        return ev(e[1], env) - ev(e[2], env)
    if t == "*":
        return ev(e[1], env) * ev(e[2], env)
    if t == "bin":
        x, y = ev(e[2], env), ev(e[3], env)
        return {"+": x + y, "-": x - y, "*": x * y}[e[1]]
    raise Skip


def values(g, n, nb):
    """plausible values by argument name (the meaning of the names in the documented kernel interface)"""
    Rhub = g.uniform(1, 3)
    r = Rhub + np.sort(g.uniform(0.5, 60, n)) + np.arange(n) * .1
    v = dict(r=r, chord=g.uniform(.3, 4), rhub=Rhub, rtip=r[-1] + g.uniform(.5, 5), phi=g.uniform(-1.4, 3.0) if g.rand() < .4 else g.uniform(.01, 1.5),
             cl=g.uniform(-1, 2), cd=g.uniform(0, .3), vx=g.uniform(2, 15), vy=g.uniform(2, 70), a=g.choice([g.uniform(-.5, 1.5), g.uniform(11, 20)]),
             ap=g.choice([g.uniform(-.5, .5), g.uniform(11, 20)]), pitch=g.uniform(-.1, .3), theta=g.uniform(-.1, .3), rho=1.2, mu=1.8e-5, precurve=g.uniform(-2, 2, n),
             presweep=g.uniform(-2, 2, n), precone=g.uniform(-.2, .2), yaw=g.uniform(-.3, .3), tilt=g.uniform(-.2, .2), azimuth=g.uniform(0, 6), uinf=g.uniform(3, 20),
             omegarpm=g.uniform(3, 20), hubht=200.0, shearexp=g.uniform(0, .3), precurvetip=g.uniform(-2, 2), presweeptip=g.uniform(-2, 2))
    v["np"], v["tp"] = g.uniform(100, 9000, n), g.uniform(10, 900, n)
    return v


def branch(g, v):
    """section model branches: loads for each of them"""
    c = g.randint(5)
    if c == 1:
        v["chord"], v["phi"], v["cl"] = 12.0, .05, 2.0          # empirical region
    if c == 2:
        v["phi"] = -g.uniform(.05, .7)                           # brake
    if c == 3:
        v["phi"], v["chord"], v["cl"] = -g.uniform(.02, .2), 8.0, 1.5
    if c == 4:
        v["phi"] = g.uniform(1.6, 3.1)


CODE = r'''
import ctypes, pickle, sys, numpy as np
so, inp, out = sys.argv[1:4]
cases = pickle.load(open(inp, "rb"))
libc = ctypes.CDLL(None)
libc.mallopt(-6, int(sys.argv[4]))
L = ctypes.CDLL(so)
res = []
for nm, args in cases:
    bufs, ps = [], []
    for kind, a in args:
        if kind == "i":
            b = ctypes.c_int(int(a))
            ps.append(ctypes.byref(b)); bufs.append(b); continue
        x = np.asarray(a, float)
        b = np.full(x.size + 8, 1234.5)
        b[4:4 + x.size] = x.flatten(order="F") if kind == "r" else np.nan
        bufs.append(b)
        ps.append(ctypes.c_void_p(b.ctypes.data + 32))
    getattr(L, nm + "_")(*ps)
    res.append([None if k == "i" else b for (k, _), b in zip(args, bufs)])
pickle.dump(res, open(out, "wb"))
'''


def check(case):
    prepare()
    g = rng_of(case)
    f = Fails()
    K = case["kind"]
    tag = os.path.join(SCRATCH[0], "c22", "%s_%s_%d" % (K, case["seed"], os.getpid()))
    if K == "rotor":
        n = int(g.choice([2, 3, 4, 5, 9]))
        code = ("import sys; sys.path[:0] = [%r, %r]\nimport common, warnings\nfrom common import *\nwarnings.simplefilter('ignore')\nimport ccblade.ccblade as M\nassert %r in M.__file__\n"
                "g = np.random.RandomState(%d)\n"
                "for k in range(3):\n    d = rotor(g, %d); af = [smooth_af(g)] * %d\n    U, Om, p = conditions(g, d, 2)\n    if k == 2: Om = Om * 0\n"
                "    R = build(d, af, derivatives=True)\n    L, D = R.distributedAeroLoads(U[0], Om[0], p[0], 30.0)\n    o, dd = R.evaluate(U, Om, p, coefficients=False)\n"
                "    R = build(d, af, derivatives=False)\n    R.evaluate(U, Om, p, coefficients=True)\n") % (
                    LIBS["pkg"], os.path.dirname(os.path.abspath(__file__)), LIBS["pkg"], case["seed"] % 2 ** 31, n, n)
        p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        # an exception of the package's own is not this property's business unless it comes from the interface of a kernel
        bad = p.returncode == 2 or p.returncode < 0 or "Fortran runtime error" in p.stdout or "_bem.error" in p.stdout or "failed in converting" in p.stdout or "must have" in p.stdout or "0-th dimension" in p.stdout
        f.true("the library's calls stay within the declared bounds", not bad, "n=%d rc=%s %s" % (n, p.returncode, p.stdout[-600:]))
        return True, f, dict(n=n, returncode=p.returncode)
    s = SIG[K]
    runs = []
    small = []
    for rep in range(6):
        n = int(g.choice([2, 3, 4, 5, 8, 12]))
        nb = int(g.choice([1, 2, 5, 9, 3 * n + 8]))
        v = values(g, n, nb)
        if not any(s.decl[a].get("dims") for a in s.args if a == "r"):
            v["r"] = float(v["r"][0])
            branch(g, v)
        env = {"n": n, "nbdirs": nb}
        args, meta = [], []
        for a in s.args:
            dc = s.decl[a]
            shp = tuple(ev(hi, env) - ev(lo, env) + 1 for lo, hi in dc["dims"]) if dc.get("dims") else ()
            it = dc.get("intent") or "inout"
            if dc["type"] == "logical":
                x = ("i", int(g.rand() < .6))
            elif dc["type"] == "integer":
                x = ("i", env[a] if a in env else 3)
            elif it == "out":
                x = ("o", np.zeros(shp))
            else:
                val = v.get(a)
                if val is None or np.shape(val) != shp:
                    val = g.uniform(-1, 1, shp) if shp else g.uniform(-1, 1)
                x = ("r", np.array(val, float))
            args.append(x)
            meta.append((a, it, shp))
        runs.append((K, args))
        small.append((n, nb, meta))
    pickle.dump(runs, open(tag + ".in", "wb"))
    outs = []
    for lib, pert in (("nan", 0), ("nan", 255), ("zero", 1), ("zero", 0x40)):
        p = subprocess.run([sys.executable, "-c", CODE, LIBS[lib], tag + ".in", tag + ".out", str(pert)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
        if p.returncode:
            f.true("accesses within the declared bounds", False, "%s: %s" % (K, p.stdout[-500:]))
            break
        outs.append(pickle.load(open(tag + ".out", "rb")))
    for e in (".in", ".out"):
        if os.path.exists(tag + e):
            os.remove(tag + e)
    if len(outs) == 4:
        for k, (n, nb, meta) in enumerate(small):
            ex = "%s n=%d nbdirs=%d args=%r" % (K, n, nb, [(m[0], np.asarray(a[1]).tolist()) for m, a in zip(meta, runs[k][1]) if a[0] != "o"])
            ex = ex[:2500]
            for j, (a, it, shp) in enumerate(meta):
                if outs[0][k][j] is None:
                    continue
                b = [o[k][j] for o in outs]
                for x in b:
                    f.true("no write outside an argument", (x[:4] == 1234.5).all() and (x[-4:] == 1234.5).all(), "%s: %s" % (a, ex))
                x0 = np.asarray(runs[k][1][j][1]).flatten(order="F")
                if it == "in":
                    f.true("inputs unchanged", (b[0][4:-4] == x0).all(), "%s: %s" % (a, ex))
                else:
                    for x in b[1:]:
                        f.true("output does not depend on undefined storage", np.array_equal(x, b[0], equal_nan=True), "%s: %s" % (a, ex))
                    # NaN in an output that a numeric domain error explains is not an access problem: compare with the poison
                    raw = b[0][4:-4].view("u8")
                    f.true("every output element is defined", not (raw == np.float64(np.nan).view("u8")).any(), "%s %r: %s" % (a, b[0][4:-4].tolist(), ex))
    return any(m[2] for m in small[0][2]), f, dict(kernel=K, runs=len(runs))
