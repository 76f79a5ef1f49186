"""concrete failing inputs for the curve and pairing layer: random calls of the real code against a reference
written from the mathematical definition (affine group law, textbook pairing)"""
import random, time
from concrete import Proc
M64 = (1 << 64) - 1
O, A, B, C = 16, 96, 176, 256          # word offsets of the objects in the scratch arena
NW = 512

class Fld:
    """F_p (n = 1) or F_p2 (n = 2); elements are tuples of residues"""
    def __init__(self, p, n): self.p = p; self.n = n; self.R = (1 << 256) % p; self.Ri = pow(self.R, -1, p)
    def add(self, a, b): return tuple((x + y) % self.p for x, y in zip(a, b))
    def sub(self, a, b): return tuple((x - y) % self.p for x, y in zip(a, b))
    def neg(self, a): return tuple(-x % self.p for x in a)
    def mul(self, a, b):
        p = self.p
        if self.n == 1: return (a[0] * b[0] % p,)
        return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)
    def inv(self, a):
        p = self.p
        if self.n == 1: return (pow(a[0], -1, p),)
        n = pow(a[0] * a[0] + a[1] * a[1], -1, p)
        return (a[0] * n % p, -a[1] * n % p)
    def pw(self, a, k):
        r = self.c(1)
        while k:
            if k & 1: r = self.mul(r, a)
            a = self.mul(a, a); k >>= 1
        return r
    def c(self, k): return (k % self.p,) + (0,) * (self.n - 1)
    def zero(self, a): return not any(a)
    def sqrt(self, a):
        """a square root, or None"""
        p = self.p
        if self.n == 1:
            s = pow(a[0], (p + 1) // 4, p)
            return (s,) if s * s % p == a[0] else None
        if a == (0, 0): return a
        # p = 3 mod 4
        a1 = self.pw(a, (p - 3) // 4); x0 = self.mul(a1, a); al = self.mul(a1, x0)
        if al == (p - 1, 0): s = self.mul((0, 1), x0)
        else: s = self.mul(self.pw(self.add((1, 0), al), (p - 1) // 2), x0)
        return s if self.mul(s, s) == a else None
    def words(self, a):
        out = []
        for x in a:
            v = x * self.R % self.p
            out += [v >> 64 * i & M64 for i in range(4)]
        return out
    def read(self, ws, o):
        """None when a component is not reduced"""
        r = []
        for j in range(self.n):
            v = sum(ws[o + 4 * j + i] << 64 * i for i in range(4))
            if v >= self.p: return None
            r.append(v * self.Ri % self.p)
        return tuple(r)
    def rnd(self, rnd):
        k = rnd.randrange(10)
        f = lambda: rnd.choice([0, 1, 2, 3, self.p - 1, self.p - 2]) if rnd.random() < 0.3 else rnd.randrange(self.p)
        if k == 0: return self.c(rnd.choice([0, 1, 2, -1]))
        return tuple(f() for _ in range(self.n))

class Curve:
    def __init__(self, cv, twist):
        p = cv['p']; self.f = Fld(p, 2 if twist else 1); self.cv = cv
        if twist:
            self.b = self.f.mul(self.f.c(cv['b']), self.f.inv(tuple(cv['xi'])))
        else: self.b = (cv['b'] % p,)
    def on(self, P): return P is None or self.f.zero(self.f.sub(self.f.mul(P[1], P[1]), self.f.add(self.f.mul(P[0], self.f.mul(P[0], P[0])), self.b)))
    def random(self, rnd):
        f = self.f
        while True:
            x = f.rnd(rnd)
            y = f.sqrt(f.add(f.mul(x, f.mul(x, x)), self.b))
            if y is not None: return (x, f.neg(y)) if rnd.random() < 0.5 else (x, y)
    def neg(self, P): return None if P is None else (P[0], self.f.neg(P[1]))
    def add(self, P, Q):
        f = self.f
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or f.zero(P[1]): return None
            l = f.mul(f.mul(f.c(3), f.mul(P[0], P[0])), f.inv(f.add(P[1], P[1])))
        else: l = f.mul(f.sub(Q[1], P[1]), f.inv(f.sub(Q[0], P[0])))
        x = f.sub(f.sub(f.mul(l, l), P[0]), Q[0])
        return x, f.sub(f.mul(l, f.sub(P[0], x)), P[1])
    def mul(self, P, k):
        if k < 0: P = self.neg(P); k = -k
        r = None
        for c in bin(k)[2:]:
            r = self.add(r, r)
            if c == '1': r = self.add(r, P)
        return r
    def triple(self, P, kind, rnd, form='Jac'):
        f = self.f
        if P is None: return [f.rnd(rnd), f.rnd(rnd), f.c(0)]
        if kind == 'aff' or kind == 'one': return [P[0], P[1], f.c(1)]
        z = f.c(0)
        while f.zero(z): z = f.rnd(rnd)
        if form == 'Hom': return [f.mul(P[0], z), f.mul(P[1], z), z]
        z2 = f.mul(z, z)
        return [f.mul(P[0], z2), f.mul(P[1], f.mul(z2, z)), z]
    def affine(self, t, form='Jac'):
        f = self.f
        if f.zero(t[2]): return None
        i = f.inv(t[2])
        if form == 'Hom': return (f.mul(t[0], i), f.mul(t[1], i))
        i2 = f.mul(i, i)
        return (f.mul(t[0], i2), f.mul(t[1], f.mul(i2, i)))
    def rd(self, ws, o, n=3): return [self.f.read(ws, o + 4 * self.f.n * i) for i in range(n)]
    def form(self, t, form):
        """does the triple satisfy the curve equation?"""
        return self.f.zero(t[2]) or self.on(self.affine(t, form))
def show(P):
    if P is None: return 'infinity'
    return '(%s)' % ', '.join('+'.join('%#x' % c for c in x) for x in P)

TESTS = {}
def test(f): TESTS[f.__name__] = f(); return f
def point(cu, kind, rnd): return None if kind == 'zero' else cu.random(rnd)
def result(cu, ws, o, want, what):
    t = cu.rd(ws, o)
    if t[2] is not None and cu.f.zero(t[2]): t = [cu.f.c(0)] * 3      # infinity: only Z counts
    if None in t: return '%s: a coordinate is not reduced' % what
    g = cu.affine(t)
    if g != want: return '%s = %s, the group law gives %s' % (what, show(g), show(want))

class Test:
    """put(cv, args, rnd, ar) -> (arguments, entry name); check(cv, args, ar, rep) -> None or text"""
    throws = False
@test
class unary(Test):
    def put(self, cv, a, rnd, ar):
        tw, entry, kind, alias, op = a; cu = Curve(cv, tw)
        o = A if alias else O
        for i, x in enumerate(cu.triple(point(cu, kind, rnd), kind, rnd)): w = cu.f.words(x); ar[A + i * len(w):A + (i + 1) * len(w)] = w
        return 'h:%s%d' % (entry, 2 if tw else 1), [o, A]
    def check(self, cv, a, ar, out, rv):
        tw, entry, kind, alias, op = a; cu = Curve(cv, tw)
        P = cu.affine(cu.rd(ar, A))
        return result(cu, out, A if alias else O, cu.add(P, P) if op == 'dbl' else cu.neg(P), '%s of %s' % (op, show(P)))
def store(cu, ar, o, t):
    for i, x in enumerate(t): w = cu.f.words(x); ar[o + i * len(w):o + (i + 1) * len(w)] = w
@test
class binary(Test):
    def put(self, cv, a, rnd, ar):
        tw, entry, k1, k2, pat, op = a; cu = Curve(cv, tw)
        P = point(cu, k1, rnd); Q = point(cu, k2, rnd)
        if P and Q:
            k = rnd.randrange(5)
            if k == 0: Q = P
            if k == 1: Q = cu.neg(P)
            if k == 2: Q = cu.add(P, P) or Q
        store(cu, ar, A, cu.triple(P, k1, rnd))
        if pat[2] != 'a': store(cu, ar, B, cu.triple(Q, k2, rnd))
        o = {'o': O, 'a': A, 'b': B}[pat[0]]; b = A if pat[2] == 'a' else B
        return 'h:%s%d' % (entry, 2 if tw else 1), [A, b] if entry.endswith('=') else [o, A, b]
    def check(self, cv, a, ar, out, rv):
        tw, entry, k1, k2, pat, op = a; cu = Curve(cv, tw)
        P = cu.affine(cu.rd(ar, A)); Q = cu.affine(cu.rd(ar, A if pat[2] == 'a' else B))
        return result(cu, out, {'o': O, 'a': A, 'b': B}[pat[0]], cu.add(P, cu.neg(Q) if op == '-' else Q), '%s %s %s' % (show(P), op, show(Q)))
def scalars(kind, n, rnd, r):
    if kind == 'I':
        if n == 'min': return -(1 << 31)
        v = rnd.choice([0, 1, 2, 3, 5, (1 << 31) - 1, 1 << 30, rnd.getrandbits(31), rnd.getrandbits(rnd.randrange(1, 31))])
        return -v if n == 'neg' else v
    if kind == 'S': return rnd.choice([0, 1, M64, 1 << 63, (1 << 32) - 1, rnd.getrandbits(64), rnd.getrandbits(rnd.randrange(1, 64))])
    k = abs(n)
    if k == 0: return 0
    v = rnd.choice([1 << 64 * k - 1, (1 << 64 * k) - 1, 1 << 64 * (k - 1), rnd.getrandbits(64 * k), sum(rnd.choice([0, 1, M64, 1 << 63, 1 << 32, 0xffffffff]) << 64 * i for i in range(k))])
    if k == 4 and rnd.random() < 0.4: v = r + rnd.choice([0, 1, -1, 2])
    v |= 0 if v >> 64 * (k - 1) else 1 << 64 * (k - 1)
    return -v if n < 0 else v
@test
class scalar(Test):
    def put(self, cv, a, rnd, ar):
        tw, entry, kind, n, ip = a; cu = Curve(cv, tw)
        store(cu, ar, A, cu.triple(cu.random(rnd) if rnd.random() < 0.95 else None, 'jac', rnd))
        m = scalars(kind, n, rnd, cv['r'])
        ar[0] = m & M64; ar[1] = 1 if m < 0 else 0
        for i in range(9): ar[C + i] = abs(m) >> 64 * i & M64
        o = A if ip else O
        if kind == 'V':
            ar[C + 9] = max(n, 1)
            for i in range(n, 9):
                if i: ar[C + i] = rnd.getrandbits(64)
            marg = C
        elif kind == 'Z':
            ar[C + 10], ar[C + 11] = ar[1], abs(n)
            for i in range(9): ar[C + 12 + i] = abs(m) >> 64 * i & M64
            marg = 'Z%d' % (C + 10)
        else: marg = '#%x' % (m & (M64 if kind == 'S' else 0xffffffff))
        return 'h:%s%s%d' % (entry, kind, 2 if tw else 1), [A, marg] if entry.endswith('*=') else [o, A, marg]
    def check(self, cv, a, ar, out, rv):
        tw, entry, kind, n, ip = a; cu = Curve(cv, tw)
        k = {'V': n, 'Z': abs(n)}.get(kind, 1) if kind in 'VZ' else None
        if kind == 'V': m = sum(ar[C + i] << 64 * i for i in range(n))
        elif kind == 'Z': m = sum(ar[C + 12 + i] << 64 * i for i in range(abs(n))); m = -m if n < 0 else m
        elif kind == 'S': m = ar[0]
        else: m = ar[0] if ar[0] < 1 << 63 else ar[0] - (1 << 64)
        P = cu.affine(cu.rd(ar, A))
        return result(cu, out, A if ip or entry.endswith('*=') else O, cu.mul(P, m), '%d * %s' % (m, show(P)))
def anyshape(cu, kind, form, rnd):
    f = cu.f
    if rnd.random() < 0.6:
        P = cu.random(rnd)
        t = cu.triple(P, 'aff' if kind == 'one' else 'jac', rnd, form)
        if rnd.random() < 0.4: i = rnd.randrange(3 if kind not in ('one',) else 2); t[i] = f.rnd(rnd)
        if rnd.random() < 0.2: t[rnd.randrange(2)] = f.c(rnd.choice([0, 1, -1]))
    else: t = [f.rnd(rnd), f.rnd(rnd), f.rnd(rnd)]
    if kind == 'zero' or (kind == 'any' and rnd.random() < 0.2): t[2] = f.c(0)
    if kind == 'one' or (kind == 'any' and rnd.random() < 0.2): t[2] = f.c(1)
    if kind == 'fin' and f.zero(t[2]): t[2] = f.c(5)
    return t
@test
class oncurve(Test):
    def put(self, cv, a, rnd, ar):
        tw, entry, form, n, kind = a; cu = Curve(cv, tw)
        store(cu, ar, A, anyshape(cu, 'one' if n == 2 else kind, form, rnd)[:n])
        return 'h:' + entry, [A]
    def check(self, cv, a, ar, out, rv):
        tw, entry, form, n, kind = a; cu = Curve(cv, tw)
        t = cu.rd(ar, A, n)
        want = cu.form(t + [cu.f.c(1)] if n == 2 else t, form)
        if rv & 0xffffffff != want: return '%s%s returns %d, the curve equation says %d' % (entry, show(t), rv & 0xffffffff, want)
@test
class normal(Test):
    def put(self, cv, a, rnd, ar):
        tw, entry, form, kind, ip = a; cu = Curve(cv, tw)
        store(cu, ar, A, anyshape(cu, kind, form, rnd))
        return 'h:%s%d' % (entry, 2 if tw else 1), [A] if entry.startswith('Ec') else [A if ip else O, A]
    def check(self, cv, a, ar, out, rv):
        tw, entry, form, kind, ip = a; cu = Curve(cv, tw)
        t = cu.rd(ar, A); o = A if ip or entry.startswith('Ec') else O; g = cu.rd(out, o)
        if None in g: return 'a coordinate is not reduced'
        P = cu.affine(t, form)
        if P is None:
            if not cu.f.zero(g[2]) or (not entry.startswith('Ec') and any(not cu.f.zero(x) for x in g)): return 'infinity becomes %s' % show(g)
        elif (g[0], g[1]) != P or g[2] != cu.f.c(1): return 'normalising %s gives %s' % (show(t), show(g))
@test
class equality(Test):
    def put(self, cv, a, rnd, ar):
        tw, entry, k1, k2, same = a; cu = Curve(cv, tw)
        P = point(cu, k1, rnd); Q = point(cu, k2, rnd)
        if P and Q:
            k = rnd.randrange(5)
            if k <= 1: Q = P
            elif k == 2: Q = cu.neg(P)
            elif k == 3: Q = (Q[0], P[1])
            if rnd.random() < 0.1: P = (P[0], cu.f.rnd(rnd))
        store(cu, ar, A, cu.triple(P, k1, rnd)); 
        if not same: store(cu, ar, B, cu.triple(Q, k2, rnd))
        return 'h:%s%d' % (entry, 2 if tw else 1), [A, A if same else B]
    def check(self, cv, a, ar, out, rv):
        tw, entry, k1, k2, same = a; cu = Curve(cv, tw)
        P = cu.affine(cu.rd(ar, A)); Q = cu.affine(cu.rd(ar, A if same else B))
        want = (P == Q) != ('!' in entry)
        if rv & 0xffffffff != want: return '%s %s %s returns %d' % (show(P), entry[4:], show(Q), rv & 0xffffffff)
        return result(cu, out, A, P, 'left operand after the comparison') or (None if same else result(cu, out, B, Q, 'right operand after the comparison'))
@test
class setter(Test):
    throws = True
    def put(self, cv, a, rnd, ar):
        tw, entry, n, v, kind = a; cu = Curve(cv, tw)
        t = anyshape(cu, kind if n == 3 else 'one', 'Jac', rnd)[:n]; st = 4 * cu.f.n; args = [O]
        for i, x in enumerate(t): ar[A + 16 * i:A + 16 * i + st] = cu.f.words(x); args.append(A + 16 * i)
        return 'h:%s%d' % (entry, 2 if tw else 1), args + ['#%x' % v]
    def check(self, cv, a, ar, out, rv):
        tw, entry, n, v, kind = a; cu = Curve(cv, tw)
        t = [cu.f.read(ar, A + 16 * i) for i in range(n)]
        if n == 2: t = t + [cu.f.c(1)]
        on = cu.form(t, 'Jac')
        if out == 'throw': return None if v and not on else '%s%s throws' % (entry, show(t))
        if v and not on: return '%s accepts %s, which is not on the curve' % (entry, show(t))
        if cu.rd(out, O) != t: return '%s%s stores %s' % (entry, show(t), show(cu.rd(out, O)))
@test
class zerotest(Test):
    def put(self, cv, a, rnd, ar):
        tw, entry, kind = a; cu = Curve(cv, tw)
        store(cu, ar, A, anyshape(cu, kind, 'Jac', rnd))
        return 'h:%s%d' % (entry, 2 if tw else 1), [A]
    def check(self, cv, a, ar, out, rv):
        tw, entry, kind = a; cu = Curve(cv, tw); t = cu.rd(ar, A)
        if rv & 0xffffffff != cu.f.zero(t[2]): return '%s%s returns %d' % (entry, show(t), rv & 0xffffffff)

# ---------------------------------------------------------------- pairing
class F12:
    """F_p12 = F_p2[w] / (w^6 - xi), elements are six F_p2 elements by powers of w"""
    LAY = (0, 2, 4, 1, 3, 5)          # power of w of the six components in memory
    def __init__(self, cv): self.f = Fld(cv['p'], 2); self.p = cv['p']; self.xi = tuple(cv['xi']); self.cv = cv; self.g = None
    def one(self): return ((1, 0),) + ((0, 0),) * 5
    def mul(self, a, b):
        p = self.p; r = [[0, 0] for _ in range(11)]
        for i, (x, y) in enumerate(a):
            if not x and not y: continue
            for j, (u, v) in enumerate(b): r[i + j][0] += x * u - y * v; r[i + j][1] += x * v + y * u
        s, t = self.xi
        for i in range(5): x, y = r[i + 6]; r[i][0] += x * s - y * t; r[i][1] += x * t + y * s
        return tuple((x % p, y % p) for x, y in r[:6])
    def pw(self, a, k):
        r = None
        for c in bin(k)[2:]:
            if r is not None: r = self.mul(r, r)
            if c == '1': r = a if r is None else self.mul(r, a)
        return r if r is not None else self.one()
    def frob(self, a, n):
        f = self.f; p = self.p
        if self.g is None: self.g = [f.pw(self.xi, i * (p - 1) // 6) for i in range(6)]
        for _ in range(n): a = tuple(f.mul((x[0], -x[1] % p), self.g[i]) for i, x in enumerate(a))
        return a
    def inv(self, a):
        """a^(p^11 + ... + p) over the norm to F_p"""
        t = self.one(); b = a
        for _ in range(11): b = self.frob(b, 1); t = self.mul(t, b)
        n = self.mul(a, t)
        k = pow(n[0][0], -1, self.p)
        return tuple((x * k % self.p, y * k % self.p) for x, y in t)
    def easy(self, f): m = self.mul(self.frob(f, 6), self.inv(f)); return self.mul(self.frob(m, 2), m)
    def fexp(self, f):
        p, r, z = self.cv['p'], self.cv['r'], self.cv['z']
        c = 2 * z * (6 * z * z + 3 * z + 1) % r
        return self.pw(self.easy(f), (p ** 4 - p * p + 1) // r * c)
    def line(self, T, Q, P):
        """line through the twist points T, Q (tangent if equal) at P of the curve; (x, y) lifts to (x w^2, y w^3)"""
        f = self.f
        if T == Q: l = f.mul(f.mul((3, 0), f.mul(T[0], T[0])), f.inv(f.add(T[1], T[1])))
        else: l = f.mul(f.sub(Q[1], T[1]), f.inv(f.sub(Q[0], T[0])))
        # y_P - y_T w^3 - l w (x_P - x_T w^2)
        return ((P[1][0], 0), f.neg(f.mul(l, (P[0][0], 0))), (0, 0), f.sub(f.mul(l, T[0]), T[1]), (0, 0), (0, 0))
    def ate(self, P, Q):
        if P is None or Q is None: return self.one()
        cu = Curve(self.cv, 1); f = self.f; p = self.p; s = 6 * self.cv['z'] + 2; neg = s < 0
        F = self.one(); T = Q
        for c in bin(abs(s))[3:]:
            F = self.mul(self.mul(F, F), self.line(T, T, P)); T = cu.add(T, T)
            if c == '1': F = self.mul(F, self.line(T, Q, P)); T = cu.add(T, Q)
        if neg: F = self.frob(F, 6); T = cu.neg(T)
        g2, g3 = f.pw(self.xi, (p - 1) // 3), f.pw(self.xi, (p - 1) // 2)
        pi = lambda S: (f.mul((S[0][0], -S[0][1] % p), g2), f.mul((S[1][0], -S[1][1] % p), g3))
        Q1 = pi(Q); Q2 = cu.neg(pi(Q1))
        F = self.mul(F, self.line(T, Q1, P)); T = cu.add(T, Q1)
        return self.mul(F, self.line(T, Q2, P))
    def read(self, ws, o):
        r = [None] * 6
        for i, k in enumerate(self.LAY): r[k] = self.f.read(ws, o + 8 * i)
        return None if None in r else tuple(r)
    def store(self, ar, o, a):
        for i, k in enumerate(self.LAY): ar[o + 8 * i:o + 8 * i + 8] = self.f.words(a[k])
    def rnd(self, rnd):
        k = rnd.randrange(8); f = self.f
        if k == 0: return ((f.rnd(rnd)),) + ((0, 0),) * 5
        if k == 1: a = [f.rnd(rnd), (0, 0), f.rnd(rnd), (0, 0), f.rnd(rnd), (0, 0)]
        elif k == 2: a = [f.rnd(rnd) if rnd.random() < 0.5 else (0, 0) for _ in range(6)]
        else: a = [f.rnd(rnd) for _ in range(6)]
        return tuple(a)
    def cyclo(self, rnd):
        """an element of the cyclotomic subgroup, sometimes with zero coordinates"""
        a = self.rnd(rnd)
        while not any(map(any, a)): a = self.rnd(rnd)
        return self.easy(a)
def g2(cv, rnd):
    cu = Curve(cv, 1); n = 2 * cv['p'] - cv['r']
    while True:
        Q = cu.mul(cu.random(rnd), n)
        if Q is not None: return Q
class PTest(Test):
    def val(self, cv, out, o, want, what):
        g = F12(cv).read(out, o)
        if g is None: return '%s: a coordinate is not reduced' % what
        if g != want: return '%s differs from the reference value' % what
@test
class finalexp(PTest):
    def put(self, cv, a, rnd, ar):
        F = F12(cv); x = (0, 0)
        f = F.rnd(rnd)
        while not any(map(any, f)): f = F.rnd(rnd)
        if rnd.random() < 0.3: f = F.easy(f)
        F.store(ar, O if a[0] == 'final_exp' else A, f)
        return 'h:' + a[0], [O] if a[0] == 'final_exp' else [O, A]
    def check(self, cv, a, ar, out, rv):
        F = F12(cv); f = F.read(ar, O if a[0] == 'final_exp' else A); m = F.easy(f)
        if a[0] == 'mapToCyclo': return self.val(cv, out, O, m, 'mapToCyclo')
        g = F.read(out, O)
        if g is None: return 'final_exp: a coordinate is not reduced'
        if F.pw(g, cv['r']) != F.one(): return 'the result of final_exp does not have order dividing r'
        h = F.pw(m, (cv['p'] ** 4 - cv['p'] ** 2 + 1) // cv['r'])
        if (h == F.one()) != (g == F.one()): return 'final_exp is %s where f^((p^12-1)/r) is %s' % tuple('1' if x == F.one() else 'not 1' for x in (g, h))
        # the fixed multiple: the value for another element tells which one it is when it is this library's
        if g != F.fexp(f): return 'final_exp(f) is not the fixed power of f'
@test
class pairing(PTest):
    def put(self, cv, a, rnd, ar):
        e, kq, kp = a; c1, c2 = Curve(cv, 0), Curve(cv, 1)
        Q = None if kq == 'zero' else g2(cv, rnd); P = None if kp == 'zero' else c1.random(rnd)
        tq = c2.triple(Q, kq, rnd); tp = c1.triple(P, kp, rnd)
        if e == 'pairing': tq = tq[:2]; tp = tp[:2]
        store(c2, ar, A, tq); store(c1, ar, B, tp)
        return 'h:' + e, [O, A, B]
    def check(self, cv, a, ar, out, rv):
        e, kq, kp = a; c1, c2 = Curve(cv, 0), Curve(cv, 1); n = 2 if e == 'pairing' else 3
        tq, tp = c2.rd(ar, A, n), c1.rd(ar, B, n)
        Q, P = (tuple(tq), tuple(tp)) if n == 2 else (c2.affine(tq), c1.affine(tp))
        F = F12(cv); f = F.ate(P, Q)
        return self.val(cv, out, O, F.fexp(f), '%s(%s, %s)' % (e, show(Q), show(P)))
@test
class precomp(PTest):
    def put(self, cv, a, rnd, ar):
        two, kq, dirty = a; c1, c2 = Curve(cv, 0), Curve(cv, 1)
        for o in (A, B): store(c2, ar, o, c2.triple(g2(cv, rnd), kq, rnd))
        for o in (C, C + 40): store(c1, ar, o, c1.triple(c1.random(rnd), 'aff', rnd))
        if two: return 'x:precomp2', [O, A, C, B, C + 40]
        return 'x:precomp', [O, A, C, B if dirty else '#0']
    def check(self, cv, a, ar, out, rv):
        two, kq, dirty = a; c1, c2 = Curve(cv, 0), Curve(cv, 1); F = F12(cv)
        Q = [c2.affine(c2.rd(ar, o)) for o in (A, B)]; P = [c1.affine(c1.rd(ar, o)) for o in (C, C + 40)]
        f = F.ate(P[0], Q[0])
        if two: f = F.mul(f, F.ate(P[1], Q[1]))
        return self.val(cv, out, O, F.fexp(f), 'precomputed pairing of %s' % ' and '.join('(%s, %s)' % (show(x), show(y)) for x, y in list(zip(P, Q))[:1 + two]))
@test
class frobtwist(Test):
    def put(self, cv, a, rnd, ar):
        f = Fld(cv['p'], 2); cu = Curve(cv, 1); store(cu, ar, A, [f.rnd(rnd), f.rnd(rnd)])
        return 'h:Frob%d' % a[0], [O, A]
    def check(self, cv, a, ar, out, rv):
        f = Fld(cv['p'], 2); p = cv['p']; cu = Curve(cv, 1); x, y = cu.rd(ar, A, 2)
        g2, g3 = f.pw(tuple(cv['xi']), (p - 1) // 3), f.pw(tuple(cv['xi']), (p - 1) // 2)
        for _ in range(a[0]): x = f.mul((x[0], -x[1] % p), g2); y = f.mul((y[0], -y[1] % p), g3)
        if tuple(cu.rd(out, O, 2)) != (x, y): return 'FrobEndOnTwist_%d%s = %s' % (a[0], show(cu.rd(ar, A, 2)), show(cu.rd(out, O, 2)))

@test
class fixedpower(PTest):
    def put(self, cv, a, rnd, ar):
        F = F12(cv); F.store(ar, A, F.one() if a[0] else F.cyclo(rnd))
        return 'h:fixed_power', [O, A]
    def check(self, cv, a, ar, out, rv):
        F = F12(cv)
        return self.val(cv, out, O, F.pw(F.read(ar, A), abs(cv['z'])), 'fixed_power')
@test
class decompress(PTest):
    def put(self, cv, a, rnd, ar):
        F = F12(cv); F.store(ar, A, F.one() if a[0] else F.cyclo(rnd))
        return ('h:decompress', [O, A, '#%x' % a[1]]) if a[1] else ('h:decompress0', [O, A])
    def check(self, cv, a, ar, out, rv):
        F = F12(cv)
        return self.val(cv, out, O, F.pw(F.read(ar, A), 1 << a[1]), 'decompressing after %d squarings' % a[1])
@test
class squaren(PTest):
    def put(self, cv, a, rnd, ar):
        F = F12(cv); F.store(ar, A, F.cyclo(rnd))
        return 'h:decompress', [O, A, '#%x' % rnd.choice([1, 2, 3, 4, 7, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 300, 512, 515])]
    def check(self, cv, a, ar, out, rv, n=0):
        F = F12(cv)
        return self.val(cv, out, O, F.pw(F.read(ar, A), 1 << n), 'decompressing after %d squarings' % n)

class FpTest(Test):
    """one prime-field routine: arguments at O, A, B"""
    entry = None
    @staticmethod
    def val(cv, rnd):
        p = cv['p']; r = rnd.random()
        if r < 0.6: return rnd.randrange(1, p)
        if r < 0.7: return pow(2, rnd.randrange(512), p)
        if r < 0.8: return (p - pow(2, rnd.randrange(254), p)) % p or 1
        if r < 0.9: return rnd.randrange(1, 1 << rnd.randrange(1, 254)) % p or 1
        return rnd.choice([1, 2, 3, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2])
def fput(ar, o, X):
    for i in range(4): ar[o + i] = X >> 64 * i & M64
def fget(ar, o): return sum(ar[o + i] << 64 * i for i in range(4))
@test
def inv_body():
    class T(FpTest):
        def put(self, cv, args, rnd, ar):
            x = self.val(cv, rnd); fput(ar, A, x)           # the stored word group, not the residue
            return 'h:Fp::inv', [A if args[0] else O, A]
        def check(self, cv, args, ar, out, rv):
            p = cv['p']; R = (1 << 256) % p; x = fget(ar, A); y = fget(out, A if args[0] else O)
            if y >= p or x * y % p != R * R % p: return 'inv(%#x) = %#x (stored form) is not the inverse' % (x, y)
    return T()
@test
def quotient():
    class T(FpTest):
        def put(self, cv, args, rnd, ar):
            e, pat = args; sl = dict(z=O, x=A, y=B)
            for c in set(pat): fput(ar, sl[c], self.val(cv, rnd))
            return e, [sl[c] for c in pat]
        def check(self, cv, args, ar, out, rv):
            e, pat = args; sl = dict(z=O, x=A, y=B); p = cv['p']; R = (1 << 256) % p
            d = fget(ar, sl[pat[-1]]); n = R if e == 'h:Fp::inverse' else fget(ar, sl[pat[-2]]); q = fget(out, sl[pat[0]])
            if q >= p or q * d % p != n * R % p: return '%s: %#x / %#x = %#x (stored form)' % (e[2:], n, d, q)
            for c in set(pat) - {pat[0]}:
                if fget(out, sl[c]) != fget(ar, sl[c]): return '%s changes an operand' % e[2:]
    return T()
@test
def root():
    class T(FpTest):
        def put(self, cv, args, rnd, ar):
            p = cv['p']; R = (1 << 256) % p
            x = rnd.choice([0, self.val(cv, rnd), self.val(cv, rnd), rnd.randrange(p) ** 2 * R % p])
            fput(ar, A, x); return 'h:Fp::squareRoot', [A if args[0] else O, A]
        def check(self, cv, args, ar, out, rv):
            p = cv['p']; R = (1 << 256) % p; Ri = pow(R, -1, p); x = fget(ar, A) * Ri % p; sq = x == 0 or pow(x, (p - 1) // 2, p) == 1
            if (rv & 0xffffffff != 0) != sq: return 'squareRoot(%#x) answers %d' % (x, rv & 0xffffffff)
            y = fget(out, A if args[0] else O)
            if sq and (y >= p or (y * Ri) ** 2 % p != x): return 'squareRoot(%#x) = %#x' % (x, y * Ri % p)
    return T()
def parse(line):
    f = line.split(); n = int(f[2]); nw = int(f[3 + n])
    return f[1], f[3:3 + n], [int(x, 16) for x in f[4 + n:4 + n + nw]]
def judge(name, args, cv, line, rep):
    T = TESTS[name]; entry, ad, ar = parse(line)
    if rep[0] == 'missing': return 'the entry point does not exist'
    if rep[0] == 'throw':
        if T.throws: return T.check(cv, args, ar, 'throw', 0)
        return 'the call throws an exception'
    if rep[0] != 'ok': return 'the call did not return (%s)' % ' '.join(rep)
    out = [int(x, 16) for x in rep[3:]]
    if name == 'squaren': return T.check(cv, args, ar, out, 0, int(str(ad[2]).strip('#'), 16))
    return T.check(cv, args, ar, out, int(rep[1], 16))
def search(exe, variant, name, args, cv, seed, budget, maxn=10 ** 9):
    pr = Proc(exe, variant); rnd = random.Random(seed); t0 = time.time(); n = 0; T = TESTS[name]
    try:
        while time.time() - t0 < budget and n < maxn:
            ar = [rnd.getrandbits(64) for _ in range(NW)]
            e, ad = T.put(cv, args, rnd, ar); n += 1
            line = 'call %s %d %s %d %s' % (e, len(ad), ' '.join(map(str, ad)), NW, ' '.join('%x' % w for w in ar))
            bad = judge(name, args, cv, line, pr.ask(line))
            if bad: return (line, bad), n
    finally: pr.close()
    return None, n
