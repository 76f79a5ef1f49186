"""obligations of the pairing layer: the compiled Miller loops and the final exponentiation run on ghost values

A degree-12 value is f1^e1 * f2^e2 * ...; a point is a multiple of a ghost point; a line evaluation is the
function of the divisor (A) + (B) + (-(A+B)) - 3(O) at a ghost point P.  The routines' callees are replaced by
their contracts on these ghost values."""
from tok import *
from ecprops import guarded, ob
F12 = 'bn::Fp12T<bn::Fp6T<bn::Fp2T<mie::Fp> > >'
F6 = 'bn::Fp6T<bn::Fp2T<mie::Fp> >'
F2 = 'bn::Fp2T<mie::Fp>'
O, A1, A2, V1, V2, PA, PB, QA, QB = [0x100000000 + 0x1000 * i for i in range(9)]

class Ghost:
    def __init__(self, img, cv):
        self.img = img; self.cv = cv; self.p = cv['p']; self.r = cv['r']; self.z = cv['z']
        self.conjf = None           # what conjugation does to exponents
        self.mod = None
        R = (1 << 256) % self.p
        self.one = [R >> 64 * i & M64 for i in range(4)]
        self.used = {}
    # ------------------------------------------------------------ words
    def words(self, tm, s, a, n): return [tm.rd(s, a + 8 * i, a + 8 * i, 8) for i in range(n)]
    def run_of(self, ws, n=None):
        """all words are consecutive words of equal values: (key, n of the value, first index)"""
        w = ws[0]
        if not isinstance(w, TW): return None
        for i, x in enumerate(ws):
            if not isinstance(x, TW) or x.i != w.i + i or x.val.n != w.val.n or (x.val is not w.val and x.val.v != w.val.v): return None
        return w.val.v, w.val.n, w.i
    def isone(self, ws): return list(ws[:4]) == self.one and all(w == 0 for w in ws[4:] if isinstance(w, int)) and all(isinstance(w, int) for w in ws)
    def put(self, tm, s, a, n, key):
        v = Val(n, key)
        for i in range(n): tm.wr(s, a + 8 * i, a + 8 * i, 8, TW(v, i))
    def mem(self, a, n, key):
        v = Val(n, key)
        return [(a + 8 * i, 8, TW(v, i)) for i in range(n)]
    # ------------------------------------------------------------ degree-12 values
    def norm(self, D):
        if self.mod: D = {k: v % self.mod for k, v in D.items()}
        return frozenset((k, v) for k, v in D.items() if v)
    def plus(self, *Ds):
        r = {}
        for D in Ds:
            for k, v in D: r[k] = r.get(k, 0) + v
        return self.norm(r)
    def times(self, D, c): return self.norm({k: v * c for k, v in D})
    def half(self, ws, off):
        """half of a degree-12 value: (exponents, conjugated)"""
        q = self.run_of(ws)
        if q is None:
            return None
        key, n, i = q
        if n == 48 and i == off and key[0] == 'F': return key[1], False
        if n == 24 and i == 0 and key[0] == 'half' and key[1] == off: return key[2], True
        return None
    def f12(self, tm, s, a):
        ws = self.words(tm, s, a, 48)
        if self.isone(ws): return frozenset()
        x, y = self.half(ws[:24], 0), self.half(ws[24:], 24)
        if x is None or y is None or x[1]: return None
        if y[0] != x[0]: return None
        return self.times(x[0], self.conjf) if y[1] else x[0]
    def putf(self, tm, s, a, D): self.put(tm, s, a, 48, ('F', D))
    def need(self, x, what):
        if x is None: raise Unsupported('%s is not a value of the expected kind' % what)
        return x
    # ------------------------------------------------------------ points: ('J'|'A', id) with multiples
    def coord(self, ws, nw):
        """coordinate words -> (point key, which coordinate, negated)"""
        q = self.run_of(ws)
        if q is None: return None
        key, n, i = q
        if key[0] == 'pt' and n in (2 * nw, 3 * nw) and i % nw == 0: return key, i // nw, False
        if key[0] == 'neg' and n == nw and i == 0: return key[1], key[2], True
        return None
    def point(self, tm, s, a, nw, k):
        """k coordinates at a: (id, multiple) of the point they represent"""
        ws = self.words(tm, s, a, k * nw)
        x, y = self.coord(ws[:nw], nw), self.coord(ws[nw:2 * nw], nw)
        if x is None or y is None or x[0] != y[0] or (x[1], y[1]) != (0, 1) or x[2]: return None
        _, pid, m, form = x[0]
        if k == 3:
            if self.isone(ws[2 * nw:]):
                if form != 'aff': return None
            else:
                z = self.coord(ws[2 * nw:], nw)
                if z is None or z[0] != x[0] or z[1] != 2 or z[2] or form == 'aff': return None
        elif form != 'aff': return None
        return pid, (-m if y[2] else m) % self.r, form
    def putpt(self, tm, s, a, nw, k, pid, m, form):
        key = ('pt', pid, m % self.r, form)
        v = Val((2 if form == 'aff' else 3) * nw, key)
        for i in range(2 * nw): tm.wr(s, a + 8 * i, a + 8 * i, 8, TW(v, i))
        if k == 3:
            for i in range(nw):
                b = a + 8 * (2 * nw + i)
                tm.wr(s, b, b, 8, TW(v, 2 * nw + i) if form != 'aff' else self.one[i] if i < 4 else 0)
    def memptn(self, a, nw, kind, pid):
        """memory of an input point: kind 'aff', 'jac' or 'zero'; three coordinates"""
        if kind == 'zero': return [(a + 8 * i, 8, TW(v, i)) for v in [Val(2 * nw, ('junk', pid))] for i in range(2 * nw)] + [(a + 8 * (2 * nw + i), 8, 0) for i in range(nw)]
        form = 'aff' if kind == 'aff' else 'jac'
        v = Val((2 if form == 'aff' else 3) * nw, ('pt', pid, 1, form))
        out = [(a + 8 * i, 8, TW(v, i)) for i in range(2 * nw)]
        return out + [(a + 8 * (2 * nw + i), 8, TW(v, 2 * nw + i) if form == 'jac' else self.one[i] if i < 4 else 0) for i in range(nw)]
    # ------------------------------------------------------------ hooks
    def bind(self):
        H = {}; E = self.img.entries
        def on(f, *names, **k):
            for nm in names:
                a = E.get(nm, 0)
                if a and nm[:2] not in ('c:', 'h:'): H[a] = f
            for pre in k.get('sym', ()):
                for a, ds in self.img.syms.items():
                    if any(d.startswith(pre + '(') or d.startswith('void ' + pre + '(') for d in ds): H[a] = f
        on(self.h_mul, 'Fp12::mul', sym=[F12 + '::mulC'])
        on(self.h_sqr, 'Fp12::square', sym=[F12 + '::squareC'])
        on(self.h_sqru, sym=[F12 + '::sqru'])
        on(self.h_inv, sym=[F12 + '::inverse'])
        for k, n in ((1, ''), (2, '2'), (3, '3')): on(self.h_frob(k), sym=[F12 + '::Frobenius' + n])
        on(self.h_neg6, sym=[F6 + '::neg'])
        on(self.h_neg(8), sym=[F2 + '::neg'])
        on(self.h_fixed, sym=['bn::CompressT<%s >::fixed_power' % F2])
        on(self.h_mulline, 'Fp12Dbl::mul_Fp2_024', sym=[F12 + '::Dbl::mul_Fp2_024C'])
        on(self.h_twolines, sym=[F12 + '::Dbl::mul_Fp2_024_Fp2_024'])
        on(self.h_dbl(1), 'Fp6::pointDblLineEval', sym=[F6 + '::pointDblLineEvalC'])
        on(self.h_dbl(0), 'Fp6::pointDblLineEvalWithoutP', sym=[F6 + '::pointDblLineEvalWithoutPC'])
        on(self.h_add(1), sym=[F6 + '::pointAddLineEval'])
        on(self.h_add(0), sym=[F6 + '::pointAddLineEvalWithoutP'])
        on(self.h_at, sym=[F6 + '::mulFp6_24_Fp_01'])
        for k in (1, 2, 8): on(self.h_fend(k), sym=['bn::ecop::FrobEndOnTwist_%d<mie::Fp>' % k])
        for nw, t in ((4, 'mie::Fp'), (8, F2)):
            on(self.h_norm(nw), sym=['bn::ecop::NormalizeJac<%s>' % t, 'bn::ecop::NormalizeJac<%s >' % t])
            on(self.h_ecnorm(nw), sym=['bn::EcT<%s>::normalize' % t, 'bn::EcT<%s >::normalize' % t])
        for a, ds in self.img.syms.items():
            for d in ds:
                if d == F2 + '::isZero() const': H[a] = self.h_zero(8)
                elif d == 'mie::Fp::isZero() const': H[a] = self.h_zero(4)
                elif d == '%s::operator==(%s const&) const' % (F2, F2): H[a] = self.h_eq(8, 1, 0)
                elif d == 'mie::Fp::compare(mie::Fp const&, mie::Fp const&)': H[a] = self.h_eq(4, 0, 1)
                elif d.startswith('bn::EcT<') and d.endswith('::normalize() const'):
                    H[a] = self.h_ecnorm(8 if 'Fp2T' in d else 4)
        return H
    def ad(self, s, *regs):
        r = [s.r.get(k) for k in regs]
        if not all(isinstance(a, int) for a in r): raise Unsupported('unknown address')
        return r
    def use(self, tm, n): tm.used[n] = tm.used.get(n, 0) + 1
    def overlap(self, *rs):
        """objects are the same or disjoint"""
        for i, (a, n) in enumerate(rs):
            for b, m in rs[:i]:
                if a != b and a < b + m and b < a + n: raise Unsupported('partially overlapping objects')
                if a == b and n != m: raise Unsupported('objects of different type overlap')
    def h_mul(self, tm, s):
        z, x, y = self.ad(s, 'rdi', 'rsi', 'rdx'); self.overlap((z, 384), (x, 384), (y, 384)); self.use(tm, 'Fp12::mul')
        self.putf(tm, s, z, self.plus(self.need(self.f12(tm, s, x), 'factor'), self.need(self.f12(tm, s, y), 'factor')))
        return tm.ret(s)
    def h_sqr(self, tm, s):
        z, = self.ad(s, 'rdi'); self.use(tm, 'Fp12::square')
        self.putf(tm, s, z, self.times(self.need(self.f12(tm, s, z), 'operand'), 2))
        return tm.ret(s)
    def cyclo(self, D, what):
        if self.mod is None or any(v % ((self.p ** 6 - 1) * (self.p ** 2 + 1)) for k, v in D): raise Unsupported('%s is not known to be in the cyclotomic subgroup' % what)
        return D
    def h_sqru(self, tm, s):
        # sqru() works in place; sqru(zz) const is executed
        ds = self.img.syms.get(s.pc, ())
        if not any(d.endswith('::sqru()') for d in ds): return False
        z, = self.ad(s, 'rdi'); self.use(tm, 'Fp12::sqru')
        self.putf(tm, s, z, self.times(self.cyclo(self.need(self.f12(tm, s, z), 'operand'), 'operand of sqru'), 2))
        return tm.ret(s)
    def h_fixed(self, tm, s):
        z, x = self.ad(s, 'rdi', 'rsi'); self.use(tm, 'Compress::fixed_power')
        if z == x: raise Unsupported('fixed_power with output = input')
        self.overlap((z, 384), (x, 384))
        self.putf(tm, s, z, self.times(self.cyclo(self.need(self.f12(tm, s, x), 'operand'), 'operand of fixed_power'), -self.z))
        return tm.ret(s)
    def h_inv(self, tm, s):
        z, = self.ad(s, 'rdi'); self.use(tm, 'Fp12::inverse')
        self.putf(tm, s, z, self.times(self.need(self.f12(tm, s, z), 'operand'), -1))
        return tm.ret(s)
    def h_frob(self, k):
        def h(tm, s):
            x, z = self.ad(s, 'rdi', 'rsi'); self.overlap((z, 384), (x, 384)); self.use(tm, 'Fp12::Frobenius%d' % k)
            if self.mod is None: raise Unsupported('Frobenius of a Miller value')
            self.putf(tm, s, z, self.times(self.need(self.f12(tm, s, x), 'operand'), self.p ** k))
            return tm.ret(s)
        return h
    def h_neg6(self, tm, s):
        z, x = self.ad(s, 'rdi', 'rsi'); self.overlap((z, 192), (x, 192)); self.use(tm, 'Fp6::neg')
        ws = self.words(tm, s, x, 24); q = self.half(ws, 24)
        if q is None: return False
        D, c = q
        if c:
            v = Val(48, ('F', D))
            for i in range(24): tm.wr(s, z + 8 * i, z + 8 * i, 8, TW(v, 24 + i))
        else: self.put(tm, s, z, 24, ('half', 24, D))
        return tm.ret(s)
    def h_neg(self, nw):
        def h(tm, s):
            z, x = self.ad(s, 'rdi', 'rsi'); self.overlap((z, 8 * nw), (x, 8 * nw))
            q = self.coord(self.words(tm, s, x, nw), nw)
            if q is None: return False
            key, j, neg = q; self.use(tm, 'Fp2::neg')
            if neg:
                v = Val((2 if key[3] == 'aff' else 3) * nw, key)
                for i in range(nw): tm.wr(s, z + 8 * i, z + 8 * i, 8, TW(v, nw * j + i))
            else: self.put(tm, s, z, nw, ('neg', key, j))
            return tm.ret(s)
        return h
    def line(self, tm, s, a):
        q = self.run_of(self.words(tm, s, a, 24))
        if q is None or q[1] != 24 or q[2] or q[0][0] != 'L': return None
        return q[0]
    def h_mulline(self, tm, s):
        z, l = self.ad(s, 'rdi', 'rsi'); self.use(tm, 'Fp12Dbl::mul_Fp2_024')
        if z <= l < z + 384: raise Unsupported('line inside the value it multiplies')
        k = self.need(self.line(tm, s, l), 'line')
        if k[2] is None: raise Unsupported('line not evaluated at a point')
        self.putf(tm, s, z, self.plus(self.need(self.f12(tm, s, z), 'factor'), self.at(k)))
        return tm.ret(s)
    def at(self, k): return frozenset(((k[2],) + q, v) for q, v in k[1])
    def h_twolines(self, tm, s):
        z, x, y = self.ad(s, 'rdi', 'rsi', 'rdx'); self.use(tm, 'Fp12Dbl::mul_Fp2_024_Fp2_024')
        if z <= x < z + 384 or z <= y < z + 384: raise Unsupported('line inside the product')
        a, b = self.need(self.line(tm, s, x), 'line'), self.need(self.line(tm, s, y), 'line')
        if a[2] is None or b[2] is None: raise Unsupported('line not evaluated at a point')
        self.putf(tm, s, z, self.plus(self.at(a), self.at(b)))
        return tm.ret(s)
    def divisor(self, *terms):
        """sum of c (k Q_id) modulo verticals and the point O"""
        r = {}
        for c, pid, k in terms:
            k %= self.r
            if k == 0: continue
            if k > self.r // 2: k = self.r - k; c = -c
            r[pid, k] = r.get((pid, k), 0) + c
        return frozenset((k, v) for k, v in r.items() if v)
    def h_dbl(self, withp):
        def h(tm, s):
            l, R = self.ad(s, 'rdi', 'rsi'); self.use(tm, 'Fp6::pointDblLineEval' + ('' if withp else 'WithoutP'))
            self.apart((l, 192), (R, 192))
            pid, m, form = self.need(self.point(tm, s, R, 8, 3), 'twist point')
            if m == 0: raise Unsupported('tangent at infinity')
            P = self.base(tm, s) if withp else None
            D = self.divisor((2, pid, m), (1, pid, -2 * m))
            self.put(tm, s, l, 24, ('L', D, P)); self.putpt(tm, s, R, 8, 3, pid, 2 * m, 'hom')
            return tm.ret(s)
        return h
    def apart(self, *rs):
        for i, (a, n) in enumerate(rs):
            for b, m in rs[:i]:
                if a < b + m and b < a + n: raise Unsupported('output overlaps an input')
    def base(self, tm, s, reg='rdx'):
        a, = self.ad(s, reg)
        q = self.need(self.point(tm, s, a, 4, 2), 'base point')
        if q[1] != 1: raise Unsupported('base point changed')
        return q[0]
    def h_add(self, withp):
        def h(tm, s):
            l, R, Q = self.ad(s, 'rdi', 'rsi', 'rdx'); self.use(tm, 'Fp6::pointAddLineEval' + ('' if withp else 'WithoutP'))
            self.apart((l, 192), (R, 192), (Q, 128))
            pid, m, form = self.need(self.point(tm, s, R, 8, 3), 'twist point')
            pid2, k, f2 = self.need(self.point(tm, s, Q, 8, 2), 'affine twist point')
            if pid != pid2: raise Unsupported('chord through multiples of different points')
            if m == 0 or k == 0 or (m - k) % self.r == 0 or (m + k) % self.r == 0: raise Unsupported('chord through %d Q and %d Q is not defined' % (m, k))
            P = self.base(tm, s, 'rcx') if withp else None
            D = self.divisor((1, pid, m), (1, pid, k), (1, pid, -m - k))
            self.put(tm, s, l, 24, ('L', D, P)); self.putpt(tm, s, R, 8, 3, pid, m + k, 'hom')
            return tm.ret(s)
        return h
    def h_at(self, tm, s):
        l, P = self.ad(s, 'rdi', 'rsi'); self.use(tm, 'Fp6::mulFp6_24_Fp_01')
        k = self.need(self.line(tm, s, l), 'line')
        if k[2] is not None: raise Unsupported('line evaluated twice')
        self.put(tm, s, l, 24, ('L', k[1], self.base(tm, s, 'rsi')))
        return tm.ret(s)
    def h_fend(self, k):
        def h(tm, s):
            z, x = self.ad(s, 'rdi', 'rsi'); self.use(tm, 'FrobEndOnTwist_%d' % k)
            self.overlap((z, 128), (x, 128))
            pid, m, form = self.need(self.point(tm, s, x, 8, 2), 'affine twist point')
            self.putpt(tm, s, z, 8, 2, pid, m * self.p ** k, 'aff')
            return tm.ret(s)
        return h
    def jac(self, tm, s, a, nw):
        """three Jacobian coordinates: 'zero', or (id, multiple)"""
        ws = self.words(tm, s, a, 3 * nw)
        if all(isinstance(w, int) and w == 0 for w in ws[2 * nw:]): return 'zero'
        q = self.need(self.point(tm, s, a, nw, 3), 'point')
        if q[2] == 'hom': raise Unsupported('homogeneous coordinates used as Jacobian ones')
        return q
    def h_norm(self, nw):
        def h(tm, s):
            z, x = self.ad(s, 'rdi', 'rsi'); self.overlap((z, 24 * nw), (x, 24 * nw)); self.use(tm, 'NormalizeJac')
            q = self.jac(tm, s, x, nw)
            if q == 'zero':
                for i in range(3 * nw): tm.wr(s, z + 8 * i, z + 8 * i, 8, 0)
            else: self.putpt(tm, s, z, nw, 3, q[0], q[1], 'aff')
            return tm.ret(s)
        return h
    def h_ecnorm(self, nw):
        def h(tm, s):
            x, = self.ad(s, 'rdi'); self.use(tm, 'Ec::normalize')
            q = self.jac(tm, s, x, nw)
            if q != 'zero': self.putpt(tm, s, x, nw, 3, q[0], q[1], 'aff')
            return tm.ret(s)
        return h
    def nonzero(self, ws, nw):
        """a z coordinate of a point that is not infinity"""
        q = self.coord(ws, nw)
        return q is not None and q[1] == 2
    def h_zero(self, nw):
        def h(tm, s):
            x, = self.ad(s, 'rdi'); ws = self.words(tm, s, x, nw)
            if self.nonzero(ws, nw): return tm.ret(s, 0)
            return False
        return h
    def h_eq(self, nw, yes, no):
        def h(tm, s):
            x, y = self.ad(s, 'rdi', 'rsi'); a, b = self.words(tm, s, x, nw), self.words(tm, s, y, nw)
            for u, v in ((a, b), (b, a)):
                if self.nonzero(u, nw) and all(isinstance(w, int) and w == 0 for w in v): return tm.ret(s, no)
            return False
        return h

# ---------------------------------------------------------------- final exponentiation
def finish(G, tm, name, fin, chk):
    class S: pass
    sc = S(); sc.tm = tm
    def g(s):
        if 'end' in s.env: return 'ends with ' + s.env['end']
        return chk(s)
    return [ob(sc, name, fin, g)]
def expo(cv):
    """the machine of the exponent computations"""
    N = cv['p'] ** 12 - 1
    return N
@guarded
def finalexp(img, cv, entry):
    G = Ghost(img, cv); p = cv['p']; r = cv['r']; G.mod = N = p ** 12 - 1; G.conjf = p ** 6
    regs = [(O, O + 384, 'rwd')]; mem = []; args = [O]
    if entry == 'final_exp': src = O
    else: src = A1; regs.append((A1, A1 + 384, 'rwd')); args = [O, A1]
    mem = G.mem(src, 48, ('F', frozenset([('f', 1)])))
    tm = TM(img, regs); tm.hooks = G.bind()
    fin = tm.run(tm.start(img.entries['h:' + entry], args, mem))
    def chk(s):
        D = G.f12(tm, s, O)
        if D is None: return 'the result is not a power of f'
        e = dict(D).get('f', 0)
        if entry == 'mapToCyclo':
            return None if e == (p ** 6 - 1) * (p * p + 1) % N else 'not the power (p^6-1)(p^2+1)'
        h = N // r
        if e % h: return 'the exponent is not a multiple of (p^12-1)/r'
        if (e // h) % r == 0: return 'the exponent is a multiple of p^12-1'
    return finish(G, tm, entry, fin, chk)
def c41_list(): return [(finalexp, ('mapToCyclo',)), (finalexp, ('final_exp',))]

# ---------------------------------------------------------------- Miller loops
def optimal(G, pairs):
    """sum over the pairs of (6z+2)(Q) + (pQ) - (p^2 Q) + (p^3 Q): the optimal ate function modulo verticals"""
    p = G.p; r = {}
    for P, Q in pairs:
        for q, v in G.divisor((6 * G.z + 2, Q, 1), (1, Q, p), (-1, Q, p * p), (1, Q, p ** 3)): r[(P,) + q] = r.get((P,) + q, 0) + v
    return frozenset((k, v) for k, v in r.items() if v)
def miller(img, cv):
    G = Ghost(img, cv); G.conjf = -1
    H = G.bind()
    def fexp(tm, s):
        z, = G.ad(s, 'rdi'); G.use(tm, 'Fp12::final_exp')
        D = G.need(G.f12(tm, s, z), 'operand of final_exp')
        G.put(tm, s, z, 48, ('E', D)); return tm.ret(s)
    for a, ds in img.syms.items():
        if F12 + '::final_exp()' in ds: H[a] = fexp
    return G, H
def value(G, tm, s, a):
    """('E', divisor) of a pairing value; 1 is the trivial one"""
    ws = G.words(tm, s, a, 48)
    if G.isone(ws): return frozenset()
    q = G.run_of(ws)
    return q[0][1] if q is not None and q[0][0] == 'E' else None
@guarded
def pairing(img, cv, entry, kq, kp):
    G, H = miller(img, cv)
    mem = G.memptn(QA, 8, kq, 'Q') + G.memptn(PA, 4, kp, 'P')
    rw = 'rwd' if entry == 'pairingEc' else 'r'
    tm = TM(img, [(O, O + 384, 'rwd'), (QA, QA + 192, rw), (PA, PA + 96, rw)]); tm.hooks = H
    fin = tm.run(tm.start(img.entries['h:' + entry], [O, QA, PA], mem))
    want = frozenset() if 'zero' in (kq, kp) else optimal(G, [('P', 'Q')])
    def chk(s):
        D = value(G, tm, s, O)
        if D is None: return 'the result is not a final power'
        if D != want: return 'the Miller function is not the optimal ate function' if want else 'the result is not 1'
    return finish(G, tm, '%s(%s, %s)' % (entry, kq, kp), fin, chk)
def carry(s, tm, s0):
    """memory after one call as the initial memory of the next (the stack is left out)"""
    return [(a, n, v) for a, (n, v) in s.m.items() if not tm.lo <= a < tm.hi]
@guarded
def precomp(img, cv, two, kq, dirty):
    """precomputeG2 (into an empty or a used vector), then the Miller loop over the coefficients"""
    G, H = miller(img, cv)
    regs = [(O, O + 384, 'rwd'), (A1, A1 + 192, 'rwd'), (QA, QA + 192, 'r'), (QB, QB + 192, 'r'), (PA, PA + 64, 'r'), (PB, PB + 64, 'r'), (V1, V1 + 24, 'rwd'), (V2, V2 + 24, 'rwd')]
    tm = TM(img, regs); tm.hooks = H
    mem = G.memptn(QA, 8, kq, 'Q') + G.memptn(QB, 8, kq, 'Q2')
    for a, i in ((PA, 'P'), (PB, 'P2')): mem += G.memptn(a, 4, 'aff', i)[:8]
    mem += [(V + 8 * i, 8, 0) for V in (V1, V2) for i in range(3)]
    env = {}; steps = [('precomputeG2', [V1, A1, QA])]
    if dirty: steps.insert(0, ('precomputeG2', [V1, A1, QB]))
    if two: steps.append(('precomputeG2', [V2, A1, QB])); steps.append(('millerLoop2', [O, V1, PA, V2, PB]))
    else: steps.append(('millerLoop', [O, V1, PA]))
    normal = []
    for e, args in steps:
        fin = tm.run(tm.start(img.entries['h:' + e], args, mem, env))
        if len(fin) != 1 or 'end' in fin[0].env: raise Unsupported('%s does not return on a single path' % e)
        s = fin[0]; mem = carry(s, tm, None); env = {'heap': s.env.get('heap', H0)}
        if e == 'precomputeG2':
            q = G.point(tm, s, A1, 8, 3); normal.append(q is not None and q[1:] == (1, 'aff'))
    want = optimal(G, [('P', 'Q')] + ([('P2', 'Q2')] if two else []))
    def chk(s):
        if not all(normal): return 'precomputeG2 does not return the normalised point'
        D = G.f12(tm, s, O)
        if D is None: return 'the result is not a product of lines'
        if D != want: return 'the Miller function is not the optimal ate function'
    return finish(G, tm, 'precomputeG2(%s%s) + %s' % (kq, ', used vector' if dirty else '', 'millerLoop2' if two else 'millerLoop'), fin, chk)
def c42_list():
    out = [(pairing, ('pairing', 'aff', 'aff'))]
    for e in ('pairingJac', 'pairingEc'):
        for a in ('zero', 'aff', 'jac'):
            for b in ('zero', 'aff', 'jac'): out.append((pairing, (e, a, b)))
    return out
def c43_list():
    return [(precomp, (two, k, d)) for two in (0, 1) for k in ('aff', 'jac') for d in (0, 1)]
