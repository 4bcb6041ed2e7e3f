"""Symbolic execution of the library's Python modules: loading and contexts."""
import os
import random
import mpmath
import z3
from mpmath import mpf
import build
import pyex
import npshim
from pyex import *
from ir import *
import ir
from ctx import *
from obl import *


def src(name):
    return os.path.join(build.REPO, "ccblade", name)


class Vals(dict):
    """values of symbols: drawn on demand, stable per seed"""

    def __init__(self, seed, ranges):
        self.seed, self.ranges = seed, ranges

    def __missing__(self, k):
        rng = random.Random("%s/%s" % (self.seed, k))
        lo, hi = self.ranges(k)
        v = self[k] = mpf(rng.uniform(lo, hi))
        return v

    def __contains__(self, k):
        return True


class Elems(dict):
    """array functions by name, values drawn from the range of the name"""

    def __init__(self, seed, ranges):
        self.seed, self.ranges = seed, ranges

    def get(self, a, d=None):
        return lambda i: mpf(random.Random("%s/%s/%s" % (self.seed, a, i)).uniform(*self.ranges(a)))


_IM = {}


def int_model(c, seed):
    """integers satisfying the integer hypotheses, varied by seed"""
    hs = c.int_key()
    key = (tuple((repr(h), p) for h, p in hs), seed[1] % 40 if isinstance(seed, tuple) else seed)
    if key not in _IM:
        if len(_IM) > 20000:
            _IM.clear()
        _IM[key] = _int_model(c, seed)
    r = _IM[key]
    return None if r is None else dict(r)


def _int_model(c, seed):
    hs = c.int_key()
    vs = sorted({v for h, _ in hs for v in h.e.vars()})
    if not vs:
        return {}
    rng = random.Random(repr(seed))
    s = z3.Solver()
    s.set("timeout", 3000)
    for h, p in hs:
        s.add(c._zc(h, p))
    order = vs[:]
    order.sort(key=lambda v: (v[0] not in "nm", v))
    for v in order:
        lo, hi = (3, 7) if v[0] in "nm" else (0, 5)
        for _ in range(3):
            s.push()
            s.add(z3.Int(v) == rng.randint(lo, hi))
            if s.check() == z3.sat:
                break
            s.pop()
    if s.check() != z3.sat:
        return None
    m = s.model()
    return {v: m.eval(z3.Int(v), model_completion=True).as_long() for v in vs}


def base(ranges=lambda k: (0.3, 2.5), seed=1, tries=60):
    """context whose samples draw every symbol from its range"""
    def sampler(k, c):
        i = int_model(c, (seed, k))
        if i is None:
            return None
        sd = "%d/%d" % (seed, k)
        v = Vals(sd, ranges)
        for h, p in c.hyps:
            if p and h.op == "==" and h.kind == "r" and h.e.k == "sym":
                v[h.e.a[0]] = mpf(0)
        return Env(v, i, Elems(sd, ranges), seed * 1000 + k)
    return Ctx(sampler, seed)


def varr(name, n, nd=1):
    """symbolic array name(0..n-1), owned by the caller"""
    a = new((n,), lambda idx: elem(name, idx[0]))
    a.root.owner = name
    return a


def sc(name):
    return V(sym(name))


def gen(x, *idx):
    """element of a result at (broadcast) generic indices, as a Node"""
    x = pyex.asarr(x)
    k = x.ndim
    ii = list(idx[-k:]) if k else []
    for q in range(k):
        if x.dims[q] == aff(1):
            ii[q] = aff(0)
    return lift(x.at(*ii)) if not isinstance(x.at(*ii), tuple) else x.at(*ii)
