"""Text files by contract: a file is a sequence of lines and of blocks of lines
repeated a symbolic number of times; numbers in the text are markers.

Formatting a number x with d decimals writes a blank-free text that reads back
as dec<d>(x), the decimal of d digits nearest to x."""
import re
import pyex
from pyex import *
from ir import *
from ctx import *

MARK = re.compile("\x01(\\d+)\x02")
SPEC = re.compile(r"^(.?[<>=^])?[+\- ]?#?0?(\d*)(?:\.(\d+))?([a-zA-Z%]?)$")


class Rep:
    """`body` once for every value of var in 0..n-1"""

    def __init__(self, n, var, body):
        self.n, self.var, self.body = n, var, body


def marker(value, kind):
    t = pyex.MACH.__dict__.setdefault("tokens", [])
    t.append((value, kind))
    return "\x01%d\x02" % (len(t) - 1)


def fmt(x, spec):
    """text of the number x in the format"""
    m = SPEC.match(spec)
    if m is None:
        raise Unsupported("format %r" % spec)
    prec, ty = m.group(3), m.group(4)
    if isinstance(x, pyex.I) and ty in ("", "d", "n"):
        return marker(aff_node(x.a), "int")
    v = pyex.node(x)
    if ty == "f" or ty == "F":
        return marker(v, "dec%d" % int(prec or 6))
    if ty == "" and prec is None and isinstance(x, pyex.V):
        return marker(v, "exact")
    if ty in ("e", "E", "g", "G", ""):
        return marker(v, "sig%s%s" % (ty or "g", prec or 6))
    raise ValueError("Unknown format code %r" % ty)


def printf(f, args):
    """f % args"""
    if not isinstance(f, str):
        return f % args
    a = list(args) if isinstance(args, tuple) else [args]
    if not any(isinstance(x, pyex.Num) for x in a):
        return f % args

    def one(m):
        if m.group(0) == "%%":
            return "%"
        x = a.pop(0)
        if not isinstance(x, pyex.Num):
            return m.group(0) % (x,)
        p = ("." + m.group(2)) if m.group(2) else ""
        return fmt(x, {"i": "d", "s": ""}.get(m.group(3), p + m.group(3)))
    r = re.sub(r"%[-+ #0]*(\d*)(?:\.(\d+))?([fFdisgGeE%])", one, f)
    if a:
        raise TypeError("not all arguments converted during string formatting")
    return r


def number(s):
    """float(s) of a text with a marker"""
    m = MARK.fullmatch(s.strip())
    if m is None:
        raise ValueError("could not convert string to float: %r" % s)
    v, kind = pyex.MACH.tokens[int(m.group(1))]
    return v if kind in ("int", "exact") else fn(kind, v)


def integer(s):
    m = MARK.fullmatch(s.strip())
    v, kind = pyex.MACH.tokens[int(m.group(1))] if m else (None, "")
    if kind != "int":
        raise ValueError("invalid literal for int() with base 10: %r" % s)
    return pyex.mki(pyex.whole(v))


class Writing:
    def __init__(self, files, name):
        self.files, self.name = files, name
        self.events = []
        self.closed = False

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        self.events.append((tuple(pyex.MACH.loops), s))
        for L in pyex.MACH.loops:
            L.effects = True

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def close(self):
        if not self.closed:
            self.closed = True
            self.files[self.name] = items(self.events, ())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def items(events, outer):
    """lines and repetitions of consecutive events"""
    out, text, k = [], "", 0
    d = len(outer)
    while k < len(events):
        loops, s = events[k]
        if len(loops) == d:
            text += s
            k += 1
            continue
        L = loops[d]
        e = k
        while e < len(events) and len(events[e][0]) > d and events[e][0][d] is L:
            e += 1
        if text and not text.endswith("\n"):
            raise Unsupported("a line across the border of a loop")
        out += text.splitlines(True)
        text = ""
        if L.lo != aff(0):
            raise Unsupported("loop that does not start at zero")
        if not L.aligned and not pyex.MACH.path_clean(L):
            raise Unsupported("text whose form depends on the iteration")
        out.append(Rep(L.hi, L.var, items(events[k:e], outer + (L,))))
        k = e
    if text and outer and not text.endswith("\n"):
        raise Unsupported("a line across iterations")
    return out + text.splitlines(True)


class Frame:
    def __init__(self, body, m, depth):
        self.body, self.k, self.m, self.depth = body, 0, m, depth
        self.ahead, self.next = False, None


class First(str):
    """the first of the repeated lines, read before the loop over them"""
    file = None


class Next:
    """the line read at the end of an iteration for the next one; known when the loop has ended"""
    value = None

    def known(self):
        if self.value is None:
            raise Unsupported("a line looked at one iteration early")
        return self.value

    def __contains__(self, x):
        return x in self.known()

    def __getattr__(self, k):
        return getattr(self.known(), k)

    def __eq__(self, o):
        return self.known() == o
    __hash__ = None

    def __bool__(self):
        return bool(self.known())

    def __len__(self):
        return len(self.known())


class Reading:
    def __init__(self, body):
        self.st = [Frame(body, {}, len(pyex.MACH.loops))]
        self.closed = False
        pyex.MACH.__dict__.setdefault("reading", []).append(self)

    def item(self):
        f = self.st[-1]
        return f.body[f.k] if f.k < len(f.body) else None

    def rep(self):
        """(count, Rep) at which the file stands, if any"""
        r = self.item()
        m = self.st[-1].m
        return (r.n(m) if callable(r.n) else r.n.subst(m), r) if isinstance(r, Rep) else (None, None)

    def readline(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        f = self.st[-1]
        x = self.item()
        if len(pyex.MACH.loops) != f.depth:
            raise Unsupported("lines read in a loop of another number of iterations than there are lines")
        if f.ahead and f.next is None:
            f.next = Next()
            return f.next
        if x is None:
            if len(self.st) > 1:
                raise Unsupported("reading past the end of a block in one iteration")
            return ""
        if isinstance(x, Rep):
            n, r = self.rep()
            if len(r.body) != 1 or isinstance(r.body[0], Rep) or self.ahead():
                raise Unsupported("repeated lines read outside of a loop over them")
            if not tr("<", 0, n):
                self.skip()
                return self.readline()
            self.first = First(self.row(r, aff(0)))
            self.first.file = self
            return self.first
        f.k += 1
        return MARK.sub(lambda q: self.inst(int(q.group(1)), f.m), x)

    first = None

    def ahead(self):
        return self.first is not None

    def row(self, r, k):
        m = dict(self.st[-1].m)
        m[r.var] = k
        return MARK.sub(lambda q: self.inst(int(q.group(1)), m), r.body[0])

    def loop(self):
        """for line in file"""
        if self.ahead():
            raise Unsupported("iteration over a file in the middle of its rows")
        for _ in forever(self):
            yield self.readline()

    def carried(self, line, L):
        """the line read ahead, as it is at the start of an iteration"""
        if line is not self.first or not self.st[-1].ahead:
            raise Unsupported("line of an earlier iteration")
        f = self.st[-1]
        return MARK.sub(lambda q: self.inst(int(q.group(1)), f.m), f.body[0])

    def inst(self, t, m):
        v, kind = pyex.MACH.tokens[t]
        return marker(isubst(v, m) if m else v, kind)

    def __iter__(self):
        raise Unsupported("iteration over a file")

    def __getattr__(self, k):
        raise Unsupported("file method %s" % k)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # called by the machine's loops
    def enter(self, L):
        n, r = self.rep()
        if r is None or self.closed:
            return False
        if not same_dim(n, L.hi - L.lo) or L.lo != aff(0):
            raise Unsupported("a loop over %r iterations meets %r repetitions in the file" % (L.hi - L.lo, n))
        m = dict(self.st[-1].m)
        m[r.var] = ivar(L.var)
        f = Frame(r.body, m, len(pyex.MACH.loops))
        f.ahead = self.ahead()
        f.k = int(f.ahead)
        self.st.append(f)
        return True

    def leave(self):
        f = self.st.pop()
        if f.k != len(f.body) or f.ahead and f.next is None:
            raise Unsupported("an iteration leaves lines of its block unread")
        self.st[-1].k += 1
        if f.ahead:
            self.first = None
            f.next.value = self.readline()

    def skip(self):
        self.st[-1].k += 1


def opener(files):
    def open_(name, mode="r", *a, **k):
        if a or set(k) - {"encoding", "newline"}:
            raise Unsupported("open with options")
        if mode in ("w", "wt", "w+"):
            return Writing(files, name)
        if mode in ("r", "rt"):
            if name not in files:
                raise FileNotFoundError(name)
            return Reading(files[name])
        raise Unsupported("open mode %s" % mode)
    return open_


def forever(file=None):
    """while True: the iterations over the block at which a file stands, then
    one more; plain repetition without a file"""
    fs = [f for f in getattr(pyex.MACH, "reading", []) if (file is None or f is file) and not f.closed and f.rep()[1] is not None]
    if not fs:
        while True:
            yield None
    if len(fs) > 1:
        raise Unsupported("two files read in one loop")
    n, r = fs[0].rep()
    if tr("<", 0, n):
        yield from pyex.MACH.loop(pyex.SymRange(aff(0), n))
    else:
        fs[0].skip()
    yield None
    raise Unsupported("a loop that does not end")
