"""Symbolic execution of the Fortran kernels.

Arrays are index functions evaluated on demand (lazily), so the number of
sections stays symbolic.  Loops over sections are summarised by inferring, for
each cell or scalar carried between iterations, the recurrence
   C(next) = C + g(i)      -> closed form  C0 + sum g
   C(next) = g(i)          -> value of the previous iteration
from one generic iteration; anything else is Unsupported.  Loops over the
derivative directions (first dimension of the *_dv/_bv arrays) are executed
for one generic direction after checking that directions do not interact.
"""
from ir import *
import ir
from ctx import *
from fparse import parse_file, Sub


class Poison:
    def __init__(self, why):
        self.why = why


class Undef(Unsupported):
    """a value is read before it is set, or an access is out of bounds"""


LANE = object()


class Array:
    """1-based one-dimensional array of symbolic size (lane dimension removed)"""

    def __init__(self, name, size, get, lane=False):
        self.name, self.size, self._get, self.lane = name, size, get, lane
        self.memo = {}

    def get(self, i):
        i = aff(i)
        r = self.memo.get(i)
        if r is None:
            r = self._get(i)
            self.memo[i] = r
        return r


class AV:
    """array-valued expression: size and element function of 1-based position"""

    def __init__(self, size, get, lane=False):
        self.size, self.get, self.lane = size, get, lane


class Scal:
    """wrapper to carry lane taint of scalars"""


class Checks:
    """safety obligations collected while executing"""

    def __init__(self, on=True):
        self.items = []
        self.on = on

    def add(self, kind, where, ok, detail=""):
        self.items.append((kind, where, ok, detail))


class Exec:
    def __init__(self, subs, contracts=None, checks=None, lane_name=None, single_ok=False):
        self.subs = subs
        self.contracts = contracts or {}
        self.checks = checks
        self.depth = 0

    # ------------------------------------------------------------ entry
    def call(self, name, args, lane=None):
        """args: list of values for the dummies in order: Node/Aff/bool/Array,
        or None for outputs.  Returns dict of final values of all dummies."""
        u = self.subs.get(name.lower())
        if u is None:
            raise Unsupported("no subroutine " + name)
        f = Frame(self, u, lane)
        return f.run(args)


class Frame:
    def __init__(self, ex, u, lane):
        self.ex, self.u = ex, u
        self.env = {}
        self.lane = lane           # name of the dummy that is the lane count
        self.inlane = None         # loop variable while in a lane loop
        self.lane_written = None
        self.lane_reads = None
        self.loop = None           # active structure recording
        self.where_line = "?"

    def check(self, kind, ok, detail=""):
        if self.ex.checks is not None:
            self.ex.checks.add(kind, "%s:%s" % (self.u.name, self.where_line), ok, detail)
        if not ok:
            raise Undef("%s at %s:%s %s" % (kind, self.u.name, self.where_line, detail))

    # -------------------------------------------------------- declarations
    def run(self, args):
        u = self.u
        if len(args) != len(u.args):
            raise Unsupported("argument count of " + u.name)
        ex = self.ex
        ex.depth += 1
        if ex.depth > 12:
            raise Unsupported("recursion")
        try:
            for a, v in zip(u.args, args):
                d = u.decl.get(a)
                if d is None:
                    raise Unsupported("undeclared dummy %s of %s" % (a, u.name))
                self.env[a] = v
            # dummies with dims and no value: fresh undefined arrays
            order = list(u.decl)
            for a in order:
                d = u.decl[a]
                if d["init"] is not None:
                    try:
                        self.env[a] = self.ev(d["init"])
                    except Unsupported:
                        if a != "dp":
                            raise
                        self.env[a] = 8
                    continue
            if self.lane and self.lane not in self.env:
                raise Unsupported("lane argument")
            for a in order:
                d = u.decl[a]
                if d["init"] is not None:
                    continue
                if d.get("prec") == "single":
                    raise Unsupported("single precision variable " + a)
                dims = d["dims"]
                if dims is not None:
                    nlane, size = self.dims(dims)
                    cur = self.env.get(a)
                    if size is None:
                        # lane-only array: a scalar per lane
                        d["_lane"] = True
                        continue
                    if cur is None:
                        self.env[a] = Array(a, size, self.undef_get(a), nlane)
                    else:
                        if not isinstance(cur, Array):
                            raise Unsupported("array dummy given a scalar: " + a)
                        # association: the actual must have at least the declared size
                        ok = ctx().entails_int("==", cur.size, size)
                        self.check("dummy array %s has the size of its argument" % a, ok, "%r vs %r" % (cur.size, size))
                        self.env[a] = Array(a, size, cur.get, nlane)
            self.block(u.body)
            return self.env
        except _Return:
            return self.env
        finally:
            ex.depth -= 1

    def undef_get(self, a):
        def g(i):
            self.check("element of %s set before it is read" % a, False, "index %r" % (i,))
        return g

    def dims(self, dims):
        """-> (has lane dim, size Aff or None)"""
        ds = []
        lane = False
        for k, (lo, hi) in enumerate(dims):
            if lo != ("int", 1):
                raise Unsupported("lower bound")
            if k == 0 and hi == ("var", self.lane):
                lane = True
                continue
            ds.append(self.ev(hi))
        if not ds:
            return lane, None
        if len(ds) > 1:
            raise Unsupported("rank > 1")
        return lane, aff(ds[0])

    def is_lane_scalar(self, a):
        d = self.u.decl.get(a)
        return bool(d and d["dims"] is not None and len(d["dims"]) == 1 and d["dims"][0][1] == ("var", self.lane)) if self.lane else False

    def has_lane(self, a):
        d = self.u.decl.get(a)
        return bool(self.lane and d and d["dims"] is not None and d["dims"][0][1] == ("var", self.lane))

    # ----------------------------------------------------------- statements
    def block(self, b):
        for st in b:
            self.stmt(st)

    def stmt(self, st):
        self.where_line = st[0]
        k = st[1]
        if k == "assign":
            self.assign(st[2], st[3])
        elif k == "if":
            for cond, body in st[2]:
                if cond is None or truth(self.evlog(cond)):
                    self.block(body)
                    break
        elif k == "do":
            self.do(st)
        elif k == "where":
            self.where(st)
        elif k == "call":
            self.callst(st)
        elif k == "return":
            raise _Return()
        else:
            raise Unsupported(k)

    def setvar(self, a, v):
        if a not in self.u.decl:
            raise Unsupported("undeclared " + a)
        if self.inlane is not None and not self.has_lane(a):
            if a in self.lane_reads and a not in self.lane_written:
                raise Unsupported("scalar carried between directions: " + a)
            self.lane_written.add(a)
        if self.loop is not None:
            self.loop.wrote_scalar(a)
        self.env[a] = v

    def getvar(self, a):
        if self.inlane is not None and not self.has_lane(a):
            if a not in self.lane_written:
                self.lane_reads.add(a)
        if self.loop is not None:
            r = self.loop.read_scalar(a)
            if r is not None:
                return r
        v = self.env.get(a)
        if isinstance(v, Poison):
            raise Unsupported("%s: %s" % (a, v.why))
        if v is None:
            self.check("%s set before it is read" % a, False)
        return v

    def convert(self, a, v):
        t = self.u.decl[a]["type"]
        if t == "real":
            if isinstance(v, bool) or (isinstance(v, tuple)):
                raise Unsupported("logical to real")
            return lift(v)
        if t == "integer":
            if isinstance(v, Aff) or isinstance(v, int):
                return aff(v)
            raise Unsupported("real assigned to integer " + a)
        if t == "logical":
            if isinstance(v, bool) or isinstance(v, tuple):
                return truth(v)
            raise Unsupported("non-logical")
        raise Unsupported(t)

    def assign(self, lhs, rhs):
        name = lhs[1]
        d = self.u.decl.get(name)
        if d is None:
            raise Unsupported("undeclared " + name)
        v = self.ev(rhs)
        if d["dims"] is None:
            if isinstance(v, AV):
                raise Unsupported("array to scalar")
            self.setvar(name, self.convert(name, v))
            return
        # array target
        if lhs[0] == "var":
            subs = [("slice", None, None, None)] * len(d["dims"])
        else:
            subs = lhs[2]
        if len(subs) != len(d["dims"]):
            raise Unsupported("subscripts of " + name)
        if self.has_lane(name):
            self.lane_sub(subs[0])
            subs = subs[1:]
        elif self.inlane is not None and not (len(subs) == 0):
            # an array shared by all directions written per direction
            raise Unsupported("array without direction dimension written in direction loop: " + name)
        if not subs:
            if isinstance(v, AV):
                raise Unsupported("rank")
            if self.loop is not None:
                self.loop.wrote_scalar(name)
            self.env[name] = self.convert(name, v)
            return
        arr = self.env[name]
        s = subs[0]
        if s[0] == "slice":
            lo = aff(1) if s[1] is None else self.evint(s[1])
            hi = arr.size if s[2] is None else self.evint(s[2])
            if s[3] is not None:
                raise Unsupported("strided assignment")
            self.bounds(name, arr, lo, hi)
            if isinstance(v, AV):
                self.conform(v.size, hi - lo + 1)
                get = v.get
                val = lambda i, get=get, lo=lo: lift(get(i - lo + 1))
            else:
                vv = lift(v)
                val = lambda i: vv
            self.write_range(name, lo, hi, val)
        else:
            i = self.evint(s)
            self.bounds(name, arr, i, i)
            if isinstance(v, AV):
                raise Unsupported("rank")
            self.write_elem(name, i, lift(v))

    def bounds(self, name, arr, lo, hi):
        c = ctx()
        # zero-sized sections are always fine
        if lo is not hi and c.entails_int("<", hi, lo):
            return
        ok = c.entails_int(">=", lo, 1) and c.entails_int("<=", hi, arr.size)
        if not ok and lo is not hi:
            # the section may be empty in some cases
            r = cmp_("<", hi, lo)
            if not isinstance(r, bool):
                if truth(r):
                    return
                ok = c.entails_int(">=", lo, 1) and c.entails_int("<=", hi, arr.size)
        self.check("%s index within bounds" % name, ok, "%r..%r of %r" % (lo, hi, arr.size))

    def conform(self, a, b):
        ok = aff(a) == aff(b) or ctx().entails_int("==", a, b)
        if not ok:
            # zero-size vs negative extent
            if ctx().entails_int("<=", a, 0) and ctx().entails_int("<=", b, 0):
                return
        self.check("array shapes conform", ok, "%r vs %r" % (a, b))

    def write_range(self, name, lo, hi, val):
        arr = self.env[name]
        if self.loop is not None:
            raise Unsupported("array section assigned inside a section loop")
        old = arr.get
        one = aff(lo) == aff(hi)

        def get(i, old=old, lo=lo, hi=hi, val=val):
            if one:
                return val(i) if truth(cmp_("==", i, lo)) else old(i)
            if truth(cmp_(">=", i, lo)) and truth(cmp_("<=", i, hi)):
                return val(i)
            return old(i)
        self.env[name] = Array(name, arr.size, get, arr.lane)

    def write_elem(self, name, i, v):
        if self.loop is not None:
            self.loop.write(name, i, v)
            return
        self.write_range(name, i, i, lambda k: v)

    def read_elem(self, name, i):
        if self.loop is not None:
            r = self.loop.read(name, i)
            if r is not None:
                return r
        a = self.env.get(name)
        if isinstance(a, Poison):
            raise Unsupported(a.why)
        return a.get(i)

    def lane_sub(self, s):
        if s[0] == "slice" and s[1] is None and s[2] is None:
            return
        if s == ("var", self.inlane) and self.inlane is not None:
            return
        raise Unsupported("direction subscript")

    # --------------------------------------------------------------- loops
    def do(self, st):
        _, _, var, lo, hi, step, body = st
        lo_, hi_ = self.evint(lo), self.evint(hi)
        stp = 1
        if step is not None:
            s = self.evint(step)
            if not s.is_const() or s.c not in (1, -1):
                raise Unsupported("loop step")
            stp = s.c
        if self.lane and stp == 1 and lo_ == aff(1) and hi_ == self.env.get(self.lane) and hi == ("var", self.lane):
            return self.lane_loop(var, body)
        if (hi_ - lo_).is_const() and abs((hi_ - lo_).c) <= 12:
            k = lo_
            cnt = (hi_ - lo_).c * stp + 1
            for _ in range(max(cnt, 0)):
                self.setvar(var, k)
                self.block(body)
                k = k + stp
            self.env[var] = Poison("loop variable after loop")
            return
        if self.loop is not None:
            raise Unsupported("nested section loops")
        Loop(self, var, lo_, hi_, stp, body, st[0]).summarise()

    def lane_loop(self, var, body):
        if self.inlane is not None:
            raise Unsupported("nested direction loops")
        self.inlane = var
        saved = self.lane_written, self.lane_reads
        self.lane_written, self.lane_reads = set(), set()
        try:
            self.env[var] = LANE
            self.block(body)
        finally:
            self.inlane = None
        for a in self.lane_written:
            if self.u.decl[a]["dims"] is None:
                self.env[a] = Poison("value of the last direction")
        self.env[var] = Poison("direction index after loop")
        self.lane_written, self.lane_reads = saved

    def where(self, st):
        clauses = st[2]
        # only whole-array/section assignments with the same target region
        targets = {}
        for cond, body in clauses:
            for b in body:
                if b[1] != "assign":
                    raise Unsupported("statement in where")
        if any(len(body) != 1 for _, body in clauses):
            if len(clauses) == 1:
                for b in clauses[0][1]:
                    self.where(("line", "where", [(clauses[0][0], [b])]))
                return
            raise Unsupported("where with several assignments")
        lhss = {repr(body[0][2]) for _, body in clauses}
        if len(lhss) != 1:
            raise Unsupported("where targets")
        lhs = clauses[0][1][0][2]
        name = lhs[1]
        d = self.u.decl[name]
        subs = lhs[2] if lhs[0] == "ref" else [("slice", None, None, None)] * len(d["dims"])
        if self.has_lane(name):
            self.lane_sub(subs[0])
            subs = subs[1:]
        arr = self.env[name]
        if len(subs) != 1 or subs[0][0] != "slice":
            raise Unsupported("where target")
        lo = aff(1) if subs[0][1] is None else self.evint(subs[0][1])
        hi = arr.size if subs[0][2] is None else self.evint(subs[0][2])
        self.bounds(name, arr, lo, hi)
        cs = []
        for cond, body in clauses:
            c = None if cond is None else self.evmask(cond)
            v = self.ev(body[0][3])
            if c is not None and isinstance(c, AV):
                self.conform(c.size, hi - lo + 1)
            if isinstance(v, AV):
                self.conform(v.size, hi - lo + 1)
            cs.append((c, v))
        old = arr.get

        def val(i):
            p = i - lo + 1
            for c, v in cs:
                if c is None or truth(c.get(p) if isinstance(c, AV) else c):
                    return lift(v.get(p) if isinstance(v, AV) else v)
            return old(i)
        self.write_range(name, lo, hi, val)

    def evmask(self, c):
        return self.ev(c)

    # --------------------------------------------------------------- calls
    def callst(self, st):
        name, args = st[2], st[3]
        u = self.ex.subs.get(name)
        if u is None:
            raise Unsupported("call of unknown " + name)
        if len(args) != len(u.args):
            raise Unsupported("argument count in call of " + name)
        if self.inlane is not None or self.loop is not None:
            if any(u.decl[d]["dims"] is not None for d in u.args):
                raise Unsupported("array call in a loop")
        vals, outs = [], []
        lane = None
        for d, a in zip(u.args, args):
            dd = u.decl[d]
            if a == ("var", self.lane) and self.lane:
                lane = d
            intent = dd["intent"]
            if a[0] == "var" and a[1] in self.u.decl:
                ad = self.u.decl[a[1]]
                if ad["dims"] is not None and not self.is_lane_scalar(a[1]):
                    v = self.env[a[1]]
                    if intent == "out":
                        v = None if False else Array(d, v.size, self.undef_get(d), v.lane)
                    vals.append(v)
                else:
                    v = self.env.get(a[1])
                    if isinstance(v, Poison):
                        v = None
                    vals.append(None if intent == "out" else v)
                if intent != "in":
                    outs.append((d, a))
            elif a[0] == "ref" and a[1] in self.u.decl and self.u.decl[a[1]]["dims"] is not None:
                ev = self.ev(a)
                if isinstance(ev, AV):
                    if intent != "in":
                        raise Unsupported("array section as output argument")
                    vals.append(Array(d, ev.size, ev.get, ev.lane))
                else:
                    if intent == "out":
                        vals.append(None)
                        outs.append((d, a))
                    elif intent == "in":
                        vals.append(ev)
                    else:
                        raise Unsupported("element as inout argument")
            else:
                if intent not in ("in", None):
                    raise Unsupported("expression as output argument")
                v = self.ev(a)
                if isinstance(v, AV):
                    v = Array(d, v.size, v.get, v.lane)
                vals.append(v)
        h = self.ex.contracts.get(name)
        if h is not None:
            res = h(self, u, vals)
        else:
            res = self.ex.call(name, vals, lane=lane)
        for d, a in outs:
            v = res[d]
            if a[0] == "var":
                if isinstance(v, Array):
                    self.env[a[1]] = Array(a[1], v.size, v.get, v.lane)
                    if self.loop is not None:
                        raise Unsupported("array result in loop")
                else:
                    if v is None:
                        if u.decl[d]["intent"] == "out":
                            self.where_line = st[0]
                            self.check("output %s of %s set" % (d, name), False)
                        continue
                    if self.is_lane_scalar(a[1]):
                        if self.loop is not None:
                            self.loop.wrote_scalar(a[1])
                        self.env[a[1]] = v
                    else:
                        self.setvar(a[1], v)
            else:
                self.assign_value(a, v)

    def assign_value(self, lhs, v):
        name = lhs[1]
        subs = lhs[2]
        if self.has_lane(name):
            self.lane_sub(subs[0])
            subs = subs[1:]
        if not subs:
            self.env[name] = v
            return
        i = self.evint(subs[0])
        self.bounds(name, self.env[name], i, i)
        self.write_elem(name, i, v)

    # ---------------------------------------------------------- expressions
    def evint(self, e):
        v = self.ev(e)
        if isinstance(v, (int, Aff)) and not isinstance(v, bool):
            return aff(v)
        raise Unsupported("integer expected")

    def evlog(self, e):
        v = self.ev(e)
        if isinstance(v, bool) or isinstance(v, tuple):
            return v
        raise Unsupported("logical expected")

    def ev(self, e):
        k = e[0]
        if k == "int":
            return aff(e[1])
        if k == "real":
            x = e[2]
            if abs(x - 3.141592653589793) < 1e-15:
                return PI
            return num(e[1])
        if k == "log":
            return e[1]
        if k == "paren":
            return self.ev(e[1])
        if k == "neg":
            return self.map1(lambda a: -a, self.ev(e[1]))
        if k == "not":
            v = self.evlog(e[1])
            return (not v) if isinstance(v, bool) else (v[0], not v[1])
        if k == "var":
            return self.var(e[1])
        if k == "bin":
            return self.bin(e[1], e[2], e[3])
        if k == "ref":
            return self.ref(e)
        raise Unsupported("expression " + k)

    def var(self, a):
        d = self.u.decl.get(a)
        if d is None:
            raise Unsupported("undeclared " + a)
        if d["dims"] is not None:
            if self.is_lane_scalar(a):
                raise Unsupported("whole direction array " + a) if self.inlane is not None else None
                return self.lane_scalar(a)
            if self.has_lane(a):
                if self.inlane is not None:
                    raise Unsupported("whole array in direction loop " + a)
            arr = self.env[a]
            if isinstance(arr, Poison):
                raise Unsupported(arr.why)
            if self.loop is not None and self.loop.touches(a):
                raise Unsupported("whole array read in a section loop that writes it")
            return AV(arr.size, arr.get, arr.lane)
        v = self.getvar(a)
        if v is LANE:
            raise Unsupported("direction index used as a value")
        return v

    def lane_scalar(self, a):
        if self.loop is not None:
            r = self.loop.read_scalar(a)
            if r is not None:
                return r
        v = self.env.get(a)
        if v is None:
            self.check("%s set before it is read" % a, False)
        return v

    INTR = {"sin": 1, "cos": 1, "exp": 1, "acos": 1, "asin": 1, "atan": 1, "sqrt": 1, "log": 1, "tan": 1}

    def ref(self, e):
        name, args = e[1], e[2]
        d = self.u.decl.get(name)
        if d is not None and d["dims"] is not None:
            subs = args
            if len(subs) != len(d["dims"]):
                raise Unsupported("subscripts of " + name)
            if self.has_lane(name):
                self.lane_sub(subs[0])
                subs = subs[1:]
            if not subs:
                return self.lane_scalar(name)
            arr = self.env[name]
            if isinstance(arr, Poison):
                raise Unsupported(arr.why)
            s = subs[0]
            if s[0] == "slice":
                if self.loop is not None and self.loop.touches(name):
                    raise Unsupported("section read in a loop that writes it")
                lo = aff(1) if s[1] is None else self.evint(s[1])
                hi = arr.size if s[2] is None else self.evint(s[2])
                if s[3] is not None:
                    raise Unsupported("stride")
                self.bounds(name, arr, lo, hi)
                return AV(hi - lo + 1, lambda p, arr=arr, lo=lo: arr.get(aff(p) + lo - 1), arr.lane)
            i = self.ev(s)
            if not isinstance(i, (Aff, int)):
                raise Unsupported("vector subscript")
            self.bounds(name, arr, i, i)
            return self.read_elem(name, aff(i))
        if name in self.ex.subs and name not in self.INTR:
            return self.fcall(name, args)
        a = [self.ev(x) for x in args if x[0] != "kw"]
        kw = {x[1]: x[2] for x in args if x[0] == "kw"}
        if name in self.INTR and len(a) == 1:
            if name in ("sqrt", "acos", "asin", "log"):
                self.map1(lambda x: domain(name, lift(x)), a[0])
            return self.map1(lambda x: fn(name, lift(x)), a[0])
        if name == "abs":
            def f(x):
                if isinstance(x, Aff):
                    raise Unsupported("integer abs")
                return fn("abs", x)
            return self.map1(f, a[0])
        if name == "atan2":
            return self.map2(lambda x, y: fn("atan2", lift(x), lift(y)), a[0], a[1])
        if name == "sign":
            return self.map2(lambda x, y: fn("abs", lift(x)) * fn("sign", lift(y)), a[0], a[1])
        if name in ("max", "min"):
            def mm(x, y):
                t = truth(cmp_(">=", x, y))
                return (x if t else y) if name == "max" else (y if t else x)
            r = a[0]
            for y in a[1:]:
                r = self.map2(mm, r, y)
            return r
        if name in ("real", "dble"):
            return self.map1(lift, a[0])
        if name in ("int", "floor", "nint"):
            return self.map1(lambda x: x if isinstance(x, Aff) else fn("floor" if name == "floor" else "opq:" + name, x), a[0])
        if name in ("sum", "dot_product"):
            if kw:
                raise Unsupported("sum with keywords")
            av = a[0] if name == "sum" else self.bin2("*", a[0], a[1])
            if not isinstance(av, AV):
                raise Unsupported("sum of scalar")
            return lsum(lambda t: lift(av.get(t)), aff(1), av.size)
        if name == "kind":
            return aff(8)
        if name == "size":
            return a[0].size
        if name == "epsilon":
            return num(Fr(2) ** -52)
        if name == "tiny":
            return num(Fr(2) ** -1022)
        if name == "merge":
            return a[0] if truth(a[2]) else a[1]
        raise Unsupported("intrinsic " + name)

    def fcall(self, name, args):
        u = self.ex.subs[name]
        if u.kind != "function":
            raise Unsupported("subroutine used as function")
        vals = [self.ev(a) for a in args]
        for d in u.args:
            if u.decl[d]["intent"] not in ("in", None):
                raise Unsupported("function with output argument")
        if any(isinstance(v, AV) for v in vals) and u.elemental:
            n = [v.size for v in vals if isinstance(v, AV)][0]

            def get(p):
                return self.ex.call(name, [v.get(p) if isinstance(v, AV) else v for v in vals])[u.result]
            return AV(n, get)
        vals = [Array(d, v.size, v.get, v.lane) if isinstance(v, AV) else v for d, v in zip(u.args, vals)]
        r = self.ex.call(name, vals)[u.result]
        if isinstance(r, Array):
            return AV(r.size, r.get, r.lane)
        return r

    def map1(self, f, a):
        if isinstance(a, AV):
            return AV(a.size, lambda p: f(a.get(p)), a.lane)
        return f(a)

    def map2(self, f, a, b):
        if isinstance(a, AV) or isinstance(b, AV):
            if isinstance(a, AV) and isinstance(b, AV):
                self.conform(a.size, b.size)
                return AV(a.size, lambda p: f(a.get(p), b.get(p)))
            if isinstance(a, AV):
                return AV(a.size, lambda p: f(a.get(p), b))
            return AV(b.size, lambda p: f(a, b.get(p)))
        return f(a, b)

    def bin(self, op, x, y):
        if op in ("and", "or"):
            a = self.ev(x)
            if isinstance(a, AV):
                b = self.ev(y)
                return self.maplog(op, a, b)
            if isinstance(a, bool):
                # Fortran may or may not evaluate the second operand
                if op == "and" and not a:
                    return False
                if op == "or" and a:
                    return True
                return self.ev(y)
            b = self.ev(y)
            if isinstance(b, AV):
                return self.maplog(op, a, b)
            ta = truth(a)
            if op == "and":
                return truth(b) if ta else False
            return True if ta else truth(b)
        return self.bin2(op, self.ev(x), self.ev(y))

    def maplog(self, op, a, b):
        n = a.size if isinstance(a, AV) else b.size

        def get(p):
            u = a.get(p) if isinstance(a, AV) else a
            tu = truth(u)
            if op == "and" and not tu:
                return False
            if op == "or" and tu:
                return True
            return truth(b.get(p) if isinstance(b, AV) else b)
        return AV(n, get)

    def bin2(self, op, a, b):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.map2(lambda x, y: cmp_(op, x, y), a, b)
        if op in (".eqv.", ".neqv."):
            r = truth(a) == truth(b)
            return r if op == ".eqv." else not r
        return self.map2(lambda x, y: arith(op, x, y, self), a, b)


DOMAIN = [None]        # a list collects (operation, operand) where it is only partly defined


def domain(op, x):
    if DOMAIN[0] is not None:
        DOMAIN[0].append((op, x))
    return x


def arith(op, x, y, fr=None):
    isint = isinstance(x, Aff) and isinstance(y, Aff)
    if op == "+":
        return x + y if isint else lift(x) + lift(y)
    if op == "-":
        return x - y if isint else lift(x) - lift(y)
    if op == "*":
        if isint:
            return x * y
        return lift(x) * lift(y)
    if op == "/":
        if isint:
            if x.is_const() and y.is_const() and y.c != 0:
                q = abs(x.c) // abs(y.c)
                return aff(q if (x.c >= 0) == (y.c >= 0) else -q)
            raise Unsupported("integer division")
        domain("/", lift(y))
        return lift(x) / lift(y)
    if op == "**":
        if isint:
            if x.is_const() and y.is_const() and y.c >= 0:
                return aff(x.c ** y.c)
            raise Unsupported("integer power")
        if isinstance(y, Aff):
            if not y.is_const():
                raise Unsupported("symbolic power")
            return lift(x) ** y.c
        return lift(x) ** y
    raise Unsupported(op)


class _Return(Exception):
    pass


def lsum(body, lo, hi, depth=0):
    """sum over an index range of a lazily evaluated body, splitting the range
    at index conditions"""
    c = ctx()
    lo, hi = aff(lo), aff(hi)
    d = hi - lo
    if d.is_const() and d.c < 0:
        return ZERO
    if d.is_const() and d.c <= 2:
        return addn([lift(body(lo + q)) for q in range(d.c + 1)])
    if truth(cmp_("<", hi, lo)):
        return ZERO
    if depth > 40:
        raise Unsupported("range splitting")
    t = tmpvar()
    tv = ivar(t)
    c.assume(Cond("i", "<=", lo - tv))
    c.assume(Cond("i", "<=", tv - hi))
    cond = None
    try:
        b = lift(body(tv))
    except Split as s:
        cond = s.cond
    finally:
        c.pop()
        c.pop()
    if cond is None:
        return ssum(t, b, lo, hi)
    if cond.kind != "i":
        if t in ivars_cond(cond):
            raise Unsupported("real condition inside a sum")
        raise Split(cond)
    k = dict(cond.e.t).get(t, 0)
    if k == 0:
        raise Split(cond)
    if k not in (1, -1):
        raise Unsupported("index condition")
    rest = cond.e - tv * k
    # k*t + rest op 0
    if cond.op == "==":
        p = rest * (-k)
        # t == p : cut into < p, p, > p
        cuts = [p - 1, p]
    elif k == 1:
        cuts = [(-rest) - (1 if cond.op == "<" else 0)]      # true for t <= cut
    else:
        cuts = [rest - (0 if cond.op == "<" else 1)]          # -t+rest<0 : t>rest ; true for t > cut
    pieces = []
    a = lo
    for q in cuts:
        if truth(cmp_("<", q, a)):
            continue
        if truth(cmp_(">=", q, hi)):
            q = hi
        pieces.append((a, q))
        a = q + 1
        if q == hi:
            break
    if not (pieces and pieces[-1][1] == hi):
        if not truth(cmp_("<", hi, a)):
            pieces.append((a, hi))
    return addn([lsum(body, p, q, depth + 1) for p, q in pieces])


def ivars_cond(cond):
    return set(cond.e.vars()) if cond.kind == "i" else ivars(cond.e)


class Loop:
    """summary of `do var = lo, hi, step` over sections"""

    def __init__(self, fr, var, lo, hi, step, body, line):
        self.fr, self.var, self.step, self.body, self.line = fr, var, step, body, line
        self.first, self.last = lo, hi
        self.lo, self.hi = (lo, hi) if step == 1 else (hi, lo)
        self.memo = {}
        self.struct = None
        self.busy = set()

    # --- structure recording -------------------------------------------
    def touches(self, a):
        return a in self.W

    def begin(self, i):
        self.i = i
        self.cells = {}           # (array, offset) -> current value in this iteration
        self.swritten = set()     # scalars written so far in this iteration
        self.sread = set()
        self.cread = set()
        self.saved_env = dict(self.fr.env)

    def read(self, name, idx):
        off = idx - self.i
        if name not in self.W:
            if name in self.discover_arrays:
                # might become written later in the body: treat as carried
                pass
            else:
                return None
        if not off.is_const():
            raise Unsupported("array %s written in the loop is read at %r" % (name, idx))
        key = (name, off.c)
        if key in self.cells:
            return self.cells[key]
        self.cread.add(key)
        return self.placeholder(("cell",) + key)

    def write(self, name, idx, v):
        off = idx - self.i
        if not off.is_const():
            raise Unsupported("array write at %r in loop over %s" % (idx, self.var))
        if name not in self.discover_arrays:
            raise Unsupported("internal: unexpected write " + name)
        self.cells[(name, off.c)] = v

    def wrote_scalar(self, a):
        self.swritten.add(a)

    def read_scalar(self, a):
        if a == self.var or a in self.swritten:
            return None
        if a in self.S:
            self.sread.add(a)
            return self.placeholder(("scal", a))
        return None

    def placeholder(self, key):
        return sym("@%s:%r" % (self.line, key))

    def assigned(self, body, arrs, scal):
        for st in body:
            k = st[1]
            if k == "assign":
                n = st[2][1]
                d = self.fr.u.decl.get(n)
                if d is None:
                    raise Unsupported("undeclared " + n)
                if d["dims"] is None or self.fr.is_lane_scalar(n):
                    scal.add(n)
                else:
                    arrs.add(n)
            elif k == "if" or k == "where":
                for _, b in st[2]:
                    self.assigned(b, arrs, scal)
            elif k == "do":
                scal.add(st[2]) if False else None
                self.assigned(st[6], arrs, scal)
            elif k == "call":
                u = self.fr.ex.subs.get(st[2])
                if u is None:
                    raise Unsupported("call " + st[2])
                for d, a in zip(u.args, st[3]):
                    if u.decl[d]["intent"] != "in" and a[0] in ("var", "ref"):
                        n = a[1]
                        dd = self.fr.u.decl[n]
                        (scal if dd["dims"] is None or self.fr.is_lane_scalar(n) else arrs).add(n)

    def execute(self, i):
        """run the body once with the loop variable at i; carried values are
        placeholders.  Returns (cells, scalars)"""
        key = aff(i)
        if key in self.memo:
            return self.memo[key]
        fr = self.fr
        saved = dict(fr.env)
        savedloop = fr.loop
        saved_inl = fr.inlane
        line = fr.where_line
        fr.env = dict(self.env0)
        fr.inlane = None
        fr.loop = self
        old = self.__dict__.get("i"), self.__dict__.get("cells"), self.__dict__.get("swritten"), self.__dict__.get("sread"), self.__dict__.get("cread")
        try:
            self.i = key
            self.cells, self.swritten, self.sread, self.cread = {}, set(), set(), set()
            fr.env[self.var] = key
            fr.block(self.body)
            r = (dict(self.cells), {a: fr.env[a] for a in self.swritten if a != self.var}, set(self.sread), set(self.cread))
        finally:
            fr.env = saved
            fr.loop = savedloop
            fr.inlane = saved_inl
            fr.where_line = line
            self.i, self.cells, self.swritten, self.sread, self.cread = old
        self.memo[key] = r
        return r

    def summarise(self):
        fr = self.fr
        c = ctx()
        arrs, scal = set(), set()
        self.assigned(self.body, arrs, scal)
        scal.discard(self.var)
        self.W = arrs
        self.discover_arrays = arrs
        self.S = scal
        self.env0 = dict(fr.env)
        empty = truth(cmp_("<", self.hi, self.lo))
        if empty:
            return
        # structure run at a generic iteration, arrays not written are opaque
        t = tmpvar()
        tv = ivar(t)
        c.assume(Cond("i", "<=", self.lo - tv))
        c.assume(Cond("i", "<=", tv - self.hi))
        env_keep = self.env0
        self.env0 = {k: (Array(k, v.size, lambda i, k=k: elem("@" + k, i), v.lane) if isinstance(v, Array) else v)
                     for k, v in self.env0.items()}
        try:
            cells, scals, sread, cread = self.run_struct(tv)
        finally:
            c.pop()
            c.pop()
            self.env0 = env_keep
            self.memo.clear()
        self.offs = {}
        for (a, o) in cells:
            self.offs.setdefault(a, set()).add(o)
        self.scal_written = set(scals)
        # publish results
        for a, os in self.offs.items():
            arr = self.env0[a]
            fr.env[a] = Array(a, arr.size, (lambda m, a=a: self.final(a, m)), arr.lane)
        for s in scals:
            if s in self.maybe_carried(sread) or True:
                fr.env[s] = self.final_scalar(s)
        fr.env[self.var] = Poison("loop variable after loop")

    def maybe_carried(self, sread):
        return sread

    def run_struct(self, tv):
        """explore the paths of a generic iteration; all must write the same cells"""
        res = []
        base = ctx()
        n0 = len(base.hyps)
        stack = [[]]
        while stack:
            ds = stack.pop()
            for cd, p in ds:
                base.assume(cd, p)
            try:
                self.memo.clear()
                r = self.execute(tv)
                res.append(r)
            except Split as s:
                ok = True
                if s.cond.kind == "i" and not (set(s.cond.e.vars()) & {tv.vars()[0]}):
                    ok = False
                if not ok:
                    raise
                for p in (True, False):
                    stack.append(ds + [(s.cond, p)])
                if len(stack) > 64:
                    raise Unsupported("paths in loop body")
            finally:
                while len(base.hyps) > n0:
                    base.pop()
        w = {frozenset(r[0]) for r in res}
        if len(w) != 1:
            raise Unsupported("loop iterations write different cells on different paths")
        sw = {frozenset(r[1]) for r in res}
        if len(sw) != 1:
            # scalars assigned on some paths only
            allw = set().union(*[set(r[1]) for r in res])
            common = set.intersection(*[set(r[1]) for r in res])
            if any(x in r[2] for r in res for x in allw - common):
                raise Unsupported("conditionally assigned scalar carried between iterations")
            r = res[0]
            return r[0], {a: r[1].get(a) for a in common}, set().union(*[r[2] for r in res]), set().union(*[r[3] for r in res])
        r = res[0]
        return r[0], r[1], set().union(*[x[2] for x in res]), set().union(*[x[3] for x in res])

    # --- closed forms ---------------------------------------------------
    def resolve(self, e, i):
        """replace placeholders in e (an expression of iteration i) by the
        values at the start of iteration i"""
        e = lift(e)
        ph = [x for x in leaves(e) if x.k == "sym" and x.a[0].startswith("@%s:" % self.line)]
        if not ph:
            return e
        m = {}
        for x in ph:
            key = eval(x.a[0].split(":", 1)[1])
            m[x] = self.start_cell(key[1], key[2], i) if key[0] == "cell" else self.start_scalar(key[1], i)
        return nsubst(e, m)

    def prev(self, i):
        return i - self.step

    def start_cell(self, a, o, i):
        """value of cell a(i+o) at the start of iteration i"""
        if a not in self.offs:
            return self.env0[a].get(i + o)
        # the most recent earlier iteration i' = i - q*step that wrote index i+o: offset o + q*step
        for q in range(1, 8):
            oo = o + q * self.step
            if oo in self.offs[a]:
                break
        else:
            return self.env0[a].get(i + o)
        if q != 1:
            raise Unsupported("carry distance")
        # iteration i' = i - step wrote it (if it exists)
        if truth(cmp_("==", i, self.first)):
            return self.env0[a].get(i + o)
        ip = i - self.step
        cells, _, _, _ = self.execute(ip)
        v = cells[(a, oo)]
        own = self.placeholder(("cell", a, oo))
        # does v depend on another carried cell of the same kind (a, o) at ip?
        chain = self.placeholder(("cell", a, o))
        if chain in leaves(v):
            w = v - chain
            if chain in leaves(w):
                raise Unsupported("carried value is not an accumulation")
            # start(o, i) = start(o, i-step) + w(i-step)   for i != first
            # closed form: old(first+o) + sum_{i' from first to i-step} w(i')
            base = self.env0[a].get(self.first + o)
            if self.step == 1:
                s = lsum(lambda t: self.resolve(self.w_of(a, oo, o, t), t), self.first, i - 1)
            else:
                s = lsum(lambda t: self.resolve(self.w_of(a, oo, o, t), t), i + 1, self.first)
            return base + s
        if own in leaves(v):
            # C(i) where C(i) = value of a(i+o) at start of i.  Only the pattern
            # "start of i' at the same carried position" gives a recurrence:
            # own placeholder = a(ip+oo) = a(i+o) at start of ip.
            # is that cell itself carried further back?
            w = v - own
            if own in leaves(w):
                raise Unsupported("carried value is not an accumulation")
            return self.start_cell(a, oo, ip) + self.resolve(w, ip)
        return self.resolve(v, ip)

    def w_of(self, a, oo, o, t):
        cells, _, _, _ = self.execute(t)
        chain = self.placeholder(("cell", a, o))
        w = cells[(a, oo)] - chain
        if chain in leaves(w):
            raise Unsupported("carried value is not an accumulation")
        return w

    def start_scalar(self, s, i):
        if s not in self.scal_written:
            return self.env0[s]
        if truth(cmp_("==", i, self.first)):
            v = self.env0.get(s)
            if v is None or isinstance(v, Poison):
                self.fr.check("%s set before it is read in loop" % s, False)
            return v
        ip = i - self.step
        _, sc, _, _ = self.execute(ip)
        v = sc[s]
        own = self.placeholder(("scal", s))
        if isinstance(v, Node) and own in leaves(v):
            base = self.env0.get(s)
            if base is None or isinstance(base, Poison):
                self.fr.check("%s set before it is read in loop" % s, False)

            def w(t):
                x = lift(self.execute(t)[1][s]) - own
                if own in leaves(x):
                    raise Unsupported("carried scalar is not an accumulation")
                return self.resolve(x, t)
            if self.step == 1:
                return lift(base) + lsum(w, self.first, i - 1)
            return lift(base) + lsum(w, i + 1, self.first)
        return self.resolve(v, ip)

    def final_scalar(self, s):
        """value after the loop"""
        try:
            return self.start_scalar_after(s)
        except Undef as e:
            raise
        except Unsupported as e:
            return Poison(str(e))

    def start_scalar_after(self, s):
        i = self.last + self.step
        # start of the (non-existing) iteration after the last
        ip = self.last
        _, sc, _, _ = self.execute(ip)
        v = sc[s]
        own = self.placeholder(("scal", s))
        if isinstance(v, Node) and own in leaves(v):
            return self.start_scalar(s, i)
        if not isinstance(v, Node):
            raise Unsupported("integer scalar after loop")
        return self.resolve(v, ip)

    def final(self, a, m):
        """value of a(m) after the loop"""
        # the last iteration writing m: offset order depends on direction
        offs = sorted(self.offs[a], reverse=(self.step == -1))
        # ascending: the latest iteration i = m - o is for the smallest o
        for o in offs:
            i = m - o
            if truth(cmp_(">=", i, self.lo)) and truth(cmp_("<=", i, self.hi)):
                cells, _, _, _ = self.execute(i)
                v = cells[(a, o)]
                return self.resolve(v, i)
        return self.env0[a].get(m)


_leafmemo = {}


def leaves(e):
    r = _leafmemo.get(e)
    if r is None:
        if e.k in ("sym", "elem", "num", "int"):
            r = frozenset((e,))
        else:
            r = frozenset()
            for c in children(e):
                r = r | leaves(c)
        _leafmemo[e] = r
    return r


def nsubst(e, m, memo=None):
    """substitute nodes"""
    if memo is None:
        memo = {}
    if e in m:
        return m[e]
    r = memo.get(e)
    if r is not None:
        return r
    k = e.k
    if k in ("num", "sym", "elem", "int"):
        return e
    if not any(x in leaves(e) for x in m) and not any(x.k not in ("sym", "elem") for x in m):
        return e
    if k == "add":
        r = addn([scale(nsubst(t, m, memo), c) for t, c in e.a])
    elif k == "scale":
        r = scale(nsubst(e.a[1], m, memo), e.a[0])
    elif k == "mul":
        r = ONE
        for b, p in e.a:
            r = mul(r, power(nsubst(b, m, memo), p))
    elif k == "fn":
        r = fn(e.a[0], *[nsubst(c, m, memo) for c in e.a[1:]])
    elif k == "psum":
        r = psum_h(e.a[0], nsubst(e.a[1], m, memo), e.a[2])
    memo[e] = r
    return r


def smap(e, f, memo=None):
    """rebuild e, replacing leaves for which f gives a node"""
    if memo is None:
        memo = {}
    r = memo.get(e)
    if r is not None:
        return r
    k = e.k
    g = lambda x: smap(x, f, memo)
    if k in ("num", "sym", "elem", "int"):
        r = f(e) if k != "num" else None
        r = e if r is None else r
    elif k == "add":
        r = addn([scale(g(t), c) for t, c in e.a])
    elif k == "scale":
        r = scale(g(e.a[1]), e.a[0])
    elif k == "mul":
        r = ONE
        for b, p in e.a:
            r = mul(r, power(g(b), p))
    elif k == "fn":
        r = fn(e.a[0], *[g(c) for c in e.a[1:]])
    elif k == "psum":
        r = psum_h(e.a[0], g(e.a[1]), e.a[2])
    else:
        raise Unsupported("node " + k)
    memo[e] = r
    return r
