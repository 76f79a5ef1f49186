"""polynomials over GF(p) (dict: sorted tuple of variables -> residue), optional u with u^2 = -1"""
U = -1     # the variable u of F_p2 = F_p[u]/(u^2+1)

class FP:
    def __init__(self, p):
        self.p = p
        self.R = (1 << 256) % p
        self.Rinv = pow(self.R, -1, p)
        self.mmemo = {}; self.monics = {}
    def const(self, c):
        c %= self.p
        return {(): c} if c else {}
    def var(self, v): return {(v,): 1}
    def add(self, a, b):
        p = self.p
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + c) % p
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def sub(self, a, b):
        p = self.p
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) - c) % p
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def neg(self, a):
        p = self.p
        return {m: p - c for m, c in a.items()}
    def scale(self, a, k):
        p = self.p
        k %= p
        if k == 0: return {}
        return {m: c * k % p for m, c in a.items()}
    def mul(self, a, b):
        p = self.p
        if len(a) > len(b): a, b = b, a
        r = {}
        memo = self.mmemo
        for m, c in a.items():
            for n, d in b.items():
                k = memo.get((m, n))
                if k is None:
                    l = sorted(m + n); s = 1
                    if len(l) >= 2 and l[0] == U and l[1] == U: l = l[2:]; s = -1
                    k = memo[(m, n)] = (tuple(l), s)
                    if len(memo) > 2000000: memo.clear()
                l, s = k
                e = c * d if s == 1 else -c * d
                r[l] = r.get(l, 0) + e
        return {m: v for m, v in ((m, v % p) for m, v in r.items()) if v}
    def pw(self, a, n):
        r = self.const(1)
        while n:
            if n & 1: r = self.mul(r, a)
            n >>= 1
            if n: a = self.mul(a, a)
        return r
    def subst(self, a, var, rep):
        r = {}
        pws = {}
        for m, c in a.items():
            k = m.count(var)
            if k == 0: r = self.add(r, {m: c}); continue
            if k not in pws: pws[k] = self.pw(rep, k)
            r = self.add(r, self.mul({tuple(v for v in m if v != var): c}, pws[k]))
        return r
    def evalpoly(self, a, env):
        t = 0
        for m, c in a.items():
            for v in m: c = c * env[v] % self.p
            t += c
        return t % self.p
    def reduce(self, a, rels):
        """remainder of a on division by the relations (each a polynomial known to be 0)"""
        heads = []
        for r in rels:
            if not r: continue
            h, r = self.monic(r)
            if h == (): continue
            heads.append((h, r))
        key = self.order
        if not heads: return a
        out = {}; a = dict(a); n = 0
        while a:
            m = max(a, key=key); c = a[m]
            for h, r in heads:
                q = self.mdiv(m, h)
                if q is not None:
                    a = self.sub(a, self.mul({q: c}, r)); break
            else:
                out[m] = c; del a[m]
            n += 1
            if n > 20000: return {('?',): 1}
        return out
    @staticmethod
    def order(m):
        """degree order of the monomials, u counted as a coefficient"""
        if m and m[0] == U: return (len(m) - 1, m[1:])
        return (len(m), m)
    def monic(self, r):
        """(head monomial, r divided by its leading coefficient in F_p2)"""
        k = frozenset(r.items()); q = self.monics.get(k)
        if q is None:
            h = max(r, key=self.order)
            if h and h[0] == U: h = h[1:]
            a, b = r.get(h, 0), r.get((U,) + h, 0)
            n = pow(a * a + b * b, -1, self.p)
            if len(self.monics) > 200000: self.monics.clear()
            q = self.monics[k] = (h, self.mul({m: c for m, c in (((), a * n % self.p), ((U,), -b * n % self.p)) if c}, r))
        return q
    def inspan(self, a, rels):
        """is a linear combination (over F_p) of the relations?"""
        p = self.p
        rows = {}
        def red(v):
            v = dict(v)
            while v:
                m = max(v)
                r = rows.get(m)
                if r is None: return v, m
                v = self.sub(v, self.scale(r, v[m]))
            return v, None
        for r in rels:
            v, m = red(r)
            if m is not None: rows[m] = self.scale(v, pow(v[m], -1, p))
        return not red(a)[0]
    def mdiv(self, m, h):
        l = list(m)
        for v in h:
            if v in l: l.remove(v)
            else: return None
        return tuple(l)
    # elements of F_p2 as pairs
    def c2(self, a): return (self.const(a[0]), self.const(a[1]))
    def add2(self, x, y): return (self.add(x[0], y[0]), self.add(x[1], y[1]))
    def sub2(self, x, y): return (self.sub(x[0], y[0]), self.sub(x[1], y[1]))
    def neg2(self, x): return (self.neg(x[0]), self.neg(x[1]))
    def mul2(self, x, y):
        return (self.sub(self.mul(x[0], y[0]), self.mul(x[1], y[1])), self.add(self.mul(x[0], y[1]), self.mul(x[1], y[0])))
    def sqr2(self, x): return self.mul2(x, x)
    def scale2(self, x, k): return (self.scale(x[0], k), self.scale(x[1], k))
    def conj2(self, x): return (x[0], self.neg(x[1]))
