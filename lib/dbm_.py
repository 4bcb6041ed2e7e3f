"""Integer difference constraints: bounds x - y <= c closed under transitivity.
Sound; complete for conjunctions of such constraints without disequalities."""
INF = 10 ** 9
Z = ""          # the constant zero


def diff_form(a):
    """x - y + c for an affine term, or None"""
    t = a.t
    if len(t) == 1:
        (v, k), = t
        if k == 1:
            return v, Z, a.c
        if k == -1:
            return Z, v, a.c
        return None
    if len(t) == 2:
        (v, k), (w, l) = t
        if k == 1 and l == -1:
            return v, w, a.c
        if k == -1 and l == 1:
            return w, v, a.c
    return None


class Dbm:
    def __init__(self, hyps):
        self.exact = True
        self.b = {}
        self.vars = {Z}
        ne = []
        for h, p in hyps:
            f = diff_form(h.e)
            if f is None:
                self.exact = False
                continue
            x, y, c = f                       # x - y + c op 0
            self.vars |= {x, y}
            if h.op == "==":
                if p:
                    self._put(x, y, -c)
                    self._put(y, x, c)
                else:
                    ne.append((x, y, -c))
            else:
                s = 1 if h.op == "<" else 0
                if p:
                    self._put(x, y, -c - s)
                else:
                    self._put(y, x, c - (1 - s))
        self._close()
        if ne:
            self.exact = False
            for _ in range(3 * len(ne)):
                ch = False
                for x, y, d in ne:            # x - y != d
                    if self.ub(x, y) == d:
                        self._put(x, y, d - 1)
                        ch = True
                    if self.ub(y, x) == -d:
                        self._put(y, x, -d - 1)
                        ch = True
                if not ch:
                    break
                self._close()
        self.ne = set(ne) | {(y, x, -d) for x, y, d in ne}

    def _put(self, x, y, c):
        if c < self.b.get((x, y), INF):
            self.b[(x, y)] = c

    def _close(self):
        b, vs = self.b, sorted(self.vars)
        for k in vs:
            for i in vs:
                ik = b.get((i, k))
                if ik is None or i == k:
                    continue
                for j in vs:
                    kj = b.get((k, j))
                    if kj is not None and j != k:
                        if ik + kj < b.get((i, j), INF):
                            b[(i, j)] = ik + kj
        self.bad = any(b.get((v, v), 0) < 0 for v in vs)

    def ub(self, x, y):
        return 0 if x == y else self.b.get((x, y), INF)

    def decide(self, c):
        """True / False / None, and whether None is exact"""
        f = diff_form(c.e)
        if f is None:
            return None, False
        x, y, k = f                            # x - y + k op 0
        u, l = self.ub(x, y), self.ub(y, x)    # x-y <= u ; x-y >= -l
        if c.op == "==":
            if u < -k or -l > -k or (x, y, -k) in self.ne:
                return False, True
            if u == -k and l == k:
                return True, True
        else:
            s = 1 if c.op == "<" else 0
            if u <= -k - s:
                return True, True
            if -l > -k - s:
                return False, True
        return None, self.exact
