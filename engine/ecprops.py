"""obligations of the elliptic-curve layer, decided by executing the compiled routines on symbolic points"""
import time
from tok import *
from build import CURVES
SP = 0x1000
class Scenario:
    """one entry point with one choice of argument shapes"""
    def __init__(self, img, cv, twist):
        self.img = img; self.cv = cv; self.twist = twist
        self.D = PolyDom(cv); self.regions = []; self.mem = []; self.env = {}
        self.n = 8 if twist else 4; self.sz = 8 * self.n; self.k = 0
        self.F = self.D.F
        p = cv['p']; xi = cv['xi']; k = cv['b'] * pow(xi[0] ** 2 + xi[1] ** 2, -1, p) % p
        self.b = self.D.c2((xi[0] * k, -xi[1] * k)) if twist else self.F.const(cv['b'])
        self.D.hl = None
    def var(self, nm): return self.D.var2(nm) if self.twist else self.D.var(nm)
    def mul(self, *a):
        r = a[0]
        for x in a[1:]: r = self.F.mul(r, x)
        return r
    def alloc(self, n, mode):
        a = 0x100000000 + SP * self.k; self.k += 1
        self.regions.append((a, a + n, mode))
        return a
    def obj(self, vals, mode='r'):
        a = self.alloc(self.sz * len(vals), mode)
        for i, v in enumerate(vals): self.mem += self.D.mem(a + self.sz * i, self.n, v)
        return a
    def nz(self, *vs):
        for v in vs:
            c = self.D.conj(v)
            self.env['nz'] = self.env.get('nz', ()) + ((v,) if c == v else (v, c))
    def point(self, nm, kind, on=True):
        """coordinates in memory, and the affine point (None: infinity)"""
        x, y = self.var('x' + nm), self.var('y' + nm)
        if kind == 'zero': return [x, y, {}], None
        if on: self.D.addrel(self.F.sub(self.mul(y, y), self.F.add(self.mul(x, x, x), self.b)))
        if on: self.nz(y)
        if kind == 'aff': return [x, y, self.F.const(1)], (x, y)
        z = self.var('z' + nm); self.nz(z)
        return [self.mul(x, z, z), self.mul(y, z, z, z), z], (x, y)
    def run(self, entry, args, extra=None):
        tm = self.tm = TM(self.img, self.regions)
        tm.hooks = self.D.hooks(self.img)
        if extra: tm.hooks.update(extra)
        self.s0 = tm.start(self.img.entries[entry], args, self.mem, self.env)
        return tm.run(self.s0)
    def get(self, s, a):
        v = self.D.fp(self.tm, s, a) if self.n == 4 else self.D.fp2(self.tm, s, a)
        return v
    def coords(self, s, a, n=3): return [self.get(s, a + self.sz * i) for i in range(n)]
    def iszero(self, s, v): return not self.D.norm(s, v)
    def split(self, s, e):
        """states in which e is known to be zero / non-zero: list of (state, is zero)"""
        g = self.D.sign(s, e)
        if g is not None: return [(s, g == 0)]
        t = s.copy(); self.D.assume(t, e, True); u = s.copy(); self.D.assume(u, e, False)
        return [(t, True), (u, False)]
    def same_point(self, s, out, aff):
        """out (three coordinates) represents the point with affine coordinates aff=(N, D, M, E): x = N/D, y = M/E; None if so"""
        X, Y, Z = out; m = self.mul; sub = self.F.sub
        if Z is None or (aff is not None and None in out): return 'coordinate is not a field value'
        if aff is None:
            return None if self.iszero(s, Z) else 'result is not the point at infinity'
        if self.D.sign(s, Z) != 1: return 'Z of the result is not known to be non-zero'
        N, Dn, M, E = aff
        if not self.iszero(s, sub(m(X, Dn), m(N, Z, Z))): return 'x coordinate differs'
        if not self.iszero(s, sub(m(Y, E), m(M, Z, Z, Z))): return 'y coordinate differs'
    def affine(self, P): return None if P is None else (P[0], self.F.const(1), P[1], self.F.const(1))
    def dbl(self, P):
        if P is None: return None
        x, y = P; m = self.mul; F = self.F
        n, d = F.scale(m(x, x), 3), F.scale(y, 2); dd = m(d, d)
        N = F.sub(m(n, n), F.scale(m(x, dd), 2))
        return N, dd, F.sub(m(n, F.sub(m(x, dd), N)), m(y, dd, d)), m(dd, d)
    def plus(self, s, P, Q):
        """list of (state, P + Q)"""
        if P is None: return [(s, self.affine(Q))]
        if Q is None: return [(s, self.affine(P))]
        F = self.F; m = self.mul; out = []
        for t, z in self.split(s, F.sub(Q[0], P[0])):
            if not z:
                n, d = F.sub(Q[1], P[1]), F.sub(Q[0], P[0]); dd = m(d, d)
                N = F.sub(m(n, n), m(F.add(P[0], Q[0]), dd))
                out.append((t, (N, dd, F.sub(m(n, F.sub(m(P[0], dd), N)), m(P[1], dd, d)), m(dd, d))))
                continue
            for u, z2 in self.split(t, F.sub(Q[1], P[1])):
                # equal abscissae, different ordinates: Q = -P
                out.append((u, self.dbl(P) if z2 else None))
        return out
    def neg(self, P): return None if P is None else (P[0], self.F.neg(P[1]))

def ob(sc, name, states, chk):
    """states -> one obligation; chk(state) returns None or what is wrong"""
    bad = []
    for s in states:
        r = chk(s)
        if r: bad.append(r)
    bad += ['%s at %#x' % q for q in sc.tm.bad]
    if not states: bad.append('no path returns')
    return dict(name=name, ok=not bad, detail='; '.join(bad[:3]), kind='value', steps=sc.tm.nsteps, paths=len(states), used=sorted(sc.tm.used))

KINDS = ('zero', 'aff', 'jac')
def guarded(f):
    def g(img, cv, *a):
        name = None
        try: return f(img, cv, *a)
        except (Unsupported, TypeError, ValueError, AttributeError, KeyError, RecursionError) as e:
            return [dict(name='%s%r' % (f.__name__, a), ok=False, detail='not decided: %s' % e, kind='value', steps=0, paths=0, used=[])]
    g.__name__ = f.__name__
    return g

@guarded
def unary(img, cv, twist, entry, kind, alias, op):
    """out = op(P)"""
    sc = Scenario(img, cv, twist)
    c, P = sc.point('', kind)
    a = sc.obj(c, 'rwd' if alias else 'r'); o = a if alias else sc.alloc(3 * sc.sz, 'rwd')
    fin = sc.run('h:%s%d' % (entry, 2 if twist else 1), [o, a])
    def chk(s):
        if 'end' in s.env: return 'ends with ' + s.env['end']
        R = {'dbl': lambda: sc.dbl(P), 'neg': lambda: sc.affine(sc.neg(P)), 'id': lambda: sc.affine(P)}[op]()
        return sc.same_point(s, sc.coords(s, o), R)
    return [ob(sc, '%s<%s>(%s%s) %s' % (entry, 'Fp2' if twist else 'Fp', kind, ', in place' if alias else '', op), fin, chk)]

@guarded
def binary(img, cv, twist, entry, k1, k2, pat, op):
    """out = P op Q; pat: which objects coincide: 'oab' 'aab' 'bab' 'oaa' 'aaa'"""
    sc = Scenario(img, cv, twist)
    c, P = sc.point('1', k1)
    a = sc.obj(c, 'rwd' if pat[0] == 'a' else 'r')
    if pat[2] == 'a': b, Q = a, P
    else:
        c, Q = sc.point('2', k2); b = sc.obj(c, 'rwd' if pat[0] == 'b' else 'r')
    o = {'o': None, 'a': a, 'b': b}[pat[0]]
    if o is None: o = sc.alloc(3 * sc.sz, 'rwd')
    args = [o, a, b]
    if entry.endswith('='): args = [a, b]
    fin = sc.run('h:%s%d' % (entry, 2 if twist else 1), args)
    def chk(s):
        if 'end' in s.env: return 'ends with ' + s.env['end']
        for t, R in sc.plus(s, P, sc.neg(Q) if op == '-' else Q):
            r = sc.same_point(t, sc.coords(t, o), R)
            if r: return r
    return [ob(sc, '%s<%s>(%s, %s; %s)' % (entry, 'Fp2' if twist else 'Fp', k1, k2 if pat[2] != 'a' else 'same', pat), fin, chk)]

def c30_list():
    out = []
    for tw in (0, 1):
        for e in ('ECDouble', 'Ec::dbl', 'Ec::neg'):
            for k in KINDS:
                for al in (0, 1): out.append((unary, (tw, e, k, al, 'neg' if 'neg' in e else 'dbl')))
        for e, op in (('ECAdd', '+'), ('Ec::add', '+'), ('Ec::sub', '-'), ('Ec::+', '+'), ('Ec::-', '-'), ('Ec::+=', '+'), ('Ec::-=', '-')):
            pats = ('oab', 'aab', 'bab', 'oaa', 'aaa')
            if e.endswith('='): pats = ('aab', 'aaa')
            for k1 in KINDS:
                for k2 in KINDS:
                    for pat in pats:
                        if pat[2] == 'a' and k1 != k2: continue
                        out.append((binary, (tw, e, k1, k2, pat, op)))
    return out

# ---------------------------------------------------------------- scalar multiplication
class Multiples:
    """points as multiples of one point: the three coordinates of k*P are parts of one value, k linear in the scalar's bits"""
    def __init__(self, img, sz):
        self.img = img; self.sz = sz; self.n = sz // 8; self.seen = set(); self.pts = {}
    def add(self, a, b):
        r = dict(a)
        for m, c in b.items(): r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c}
    def at(self, tm, s, e):
        """value of a linear form where the path knows the bits"""
        r = {}
        for b, c in e.items():
            v = 1 if b == () else tm.bit(s, b)
            if v == 0: continue
            k = () if v == 1 else v
            r[k] = r.get(k, 0) + c
        return {m: c for m, c in r.items() if c}
    def read(self, tm, s, a):
        ws = [tm.rd(s, a + 8 * i, a + 8 * i, 8) for i in range(3 * self.n)]
        if all(w == 0 for w in ws[2 * self.n:] if isinstance(w, int)) and all(isinstance(w, int) for w in ws[2 * self.n:]): return {}
        w = ws[0]
        def same(w, v, i): return isinstance(w, TW) and w.val is v and w.i == i
        if not isinstance(w, TW): return None
        v = w.val; n = self.n
        if not (v.n == 3 * n and all(same(ws[i], v, i) for i in list(range(n)) + list(range(2 * n, 3 * n)))): return None
        if all(same(ws[i], v, i) for i in range(n, 2 * n)): return dict(v.v)
        y = ws[n]
        if isinstance(y, TW) and y.val.n == n and y.val.v == ('neg', id(v)) and all(same(ws[n + i], y.val, i) for i in range(n)): return {b: -c for b, c in v.v.items()}
        return None
    def write(self, tm, s, a, e):
        v = Val(3 * self.n, e); self.pts[id(v)] = v
        for i in range(3 * self.n): tm.wr(s, a + 8 * i, a + 8 * i, 8, TW(v, i))
    def mem(self, a, e):
        v = Val(3 * self.n, e); self.pts[id(v)] = v
        return [(a + 8 * i, 8, TW(v, i)) for i in range(3 * self.n)]
    def key(self, tm, s):
        def k(v):
            if isinstance(v, TW):
                return ('w', tuple(sorted(self.at(tm, s, v.val.v).items(), key=str)) if isinstance(v.val.v, dict) else v.val.v, v.i)
            if isinstance(v, Bits): return ('b',) + tuple(tm.bits(s, v))
            return v if isinstance(v, int) else (type(v).__name__, id(v)) if isinstance(v, Tok) else repr(v)
        sp = s.r['rsp']
        return (s.pc, s.stk, tuple(sorted((r, k(v)) for r, v in s.r.items() if r in CALLEE or r == 'rsp' or r in ARGS)), s.fl.__class__.__name__,
                tuple(sorted((a, n, k(v)) for a, (n, v) in s.m.items() if not tm.lo <= a < sp)), s.env.get('some'))
    def hooks(self, twist):
        H = {}
        t = 'bn::Fp2T<mie::Fp> ' if twist else 'mie::Fp'
        for a, names in self.img.syms.items():
            for d in names:
                if d.startswith('void bn::ecop::ECDouble<%s>(' % t): H[a] = self.dbl
                if d.startswith('void bn::ecop::ECAdd<%s>(' % t): H[a] = self.addh
        return H
    def neg_hook(self, tm, s):
        d, a = s.r['rdi'], s.r['rsi']
        ws = [tm.rd(s, a + 8 * i, a + 8 * i, 8) for i in range(self.n)]
        w = ws[0]
        if not isinstance(w, TW) or w.val.n != 3 * self.n or w.i != self.n or any(not isinstance(x, TW) or x.val is not w.val or x.i != self.n + i for i, x in enumerate(ws)): return False
        v = Val(self.n, ('neg', id(w.val)))
        for i in range(self.n): tm.wr(s, d + 8 * i, d + 8 * i, 8, TW(v, i))
        return tm.ret(s)
    def generalise(self, tm, s, a, e):
        """the loop invariant: the accumulator is the scalar's leading bits times P"""
        asg = s.env.get('bits', {})
        if not asg: return e
        lo = min(asg)
        pre = {i: 1 << (i - lo) for i in range(lo, self.nbits)}
        if self.at(tm, s, e) != self.at(tm, s, pre): return e
        s.env['bits'] = {}; s.env['some'] = None
        return pre
    def dbl(self, tm, s):
        d, a = s.r['rdi'], s.r['rsi']
        if not (isinstance(d, int) and isinstance(a, int)): return False
        e = self.read(tm, s, a)
        if e is None or (d != a and abs(d - a) < 3 * self.sz): return False
        e = self.generalise(tm, s, a, e)
        self.write(tm, s, a, e)
        k = self.key(tm, s)
        if k in self.seen: return []
        self.seen.add(k)
        tm.used['ECDouble'] = 1
        self.write(tm, s, d, {b: 2 * c for b, c in e.items()})
        return tm.ret(s)
    def addh(self, tm, s):
        d, a, b = s.r['rdi'], s.r['rsi'], s.r['rdx']
        if not all(isinstance(x, int) for x in (d, a, b)): return False
        x, y = self.read(tm, s, a), self.read(tm, s, b)
        if x is None or y is None: return False
        tm.used['ECAdd'] = 1
        self.write(tm, s, d, self.add(x, y))
        return tm.ret(s)

@guarded
def scalar(img, cv, twist, entry, kind, n, inplace):
    """out = m * P for every m of the given kind and size"""
    sz = 64 if twist else 32
    M = Multiples(img, sz); a = 0x100000000; o = a if inplace else 0x100001000; md = 0x100002000; ld = 0x100003000
    mem = M.mem(a, {(): 1}); regions = [(a, a + 3 * sz, 'rwd' if inplace else 'r')]
    if not inplace: regions.append((o, o + 3 * sz, 'rwd'))
    env = {}; marg = md; sign = 1; want = None
    if kind == 'V':
        N = 9
        mem += [(md + 8 * N, 8, max(n, 1))] + [(md + 8 * i, 8, Bits(range(64 * i, 64 * i + 64))) for i in range(n)]
        if n == 0: mem += [(md, 8, 0)]
        regions.append((md, md + 8 * N + 8, 'rd')); nb = 64 * n
        if n: env['some'] = tuple(range(64 * (n - 1), 64 * n))
    elif kind == 'Z':
        k = abs(n); sign = -1 if n < 0 else 1
        mem += [(md, 4, k + 1), (md + 4, 4, n & 0xffffffff), (md + 8, 8, ld)] + [(ld + 8 * i, 8, Bits(range(64 * i, 64 * i + 64))) for i in range(k)]
        regions += [(md, md + 16, 'rd'), (ld, ld + 8 * k, 'rd')]; nb = 64 * k
        if k: env['some'] = tuple(range(64 * (k - 1), 64 * k))
    elif kind == 'S': marg = Bits(range(64)); nb = 64; want = 'any'
    elif kind == 'I':
        nb = 31
        if n == 'min': marg = 1 << 31; nb = 32; want = {(): -(1 << 31)}
        elif n == 'pos': marg = Bits(range(31))
        else: marg = NegBits(Bits(range(31)), 32); sign = -1; env['some'] = tuple(range(31))
    M.nbits = nb
    tm = TM(img, regions); tm.bitmode = True
    tm.hooks = M.hooks(twist)
    E = img.entries
    for nm in (('Fp::neg',) if not twist else ('c:Fp2::neg',)):
        if nm in E: tm.hooks[E[nm]] = M.neg_hook
    if twist:
        for ad, names in img.syms.items():
            if any(d.startswith('bn::Fp2T<mie::Fp>::neg(') for d in names): tm.hooks[ad] = M.neg_hook
    s = tm.start(E['h:%s%s%d' % (entry, kind, 2 if twist else 1)], [o, a, marg] if not entry.endswith('*=') else [a, marg], mem, env)
    if entry.endswith('*='): o = a
    fin = tm.run(s)
    bad = []
    for s in fin:
        if 'end' in s.env: bad.append('ends with ' + s.env['end']); continue
        e = M.read(tm, s, o)
        w = want if isinstance(want, dict) else {i: sign << i for i in range(nb)}
        if e is None: bad.append('the result is not a multiple of P'); continue
        if M.at(tm, s, e) != M.at(tm, s, w): bad.append('the result is not m times P')
    if not fin: bad.append('no path returns')
    bad += ['%s at %#x' % q for q in tm.bad]
    return [dict(name='%s<%s>(%s %s%s)' % (entry, 'Fp2' if twist else 'Fp', {'V': 'Vuint, words', 'Z': 'mpz_class, words', 'I': 'int', 'S': 'size_t'}[kind], n, ', in place' if inplace else ''),
                 ok=not bad, detail='; '.join(bad[:3]), kind='value', steps=tm.nsteps, paths=len(fin), used=sorted(tm.used))]

def c31_list():
    out = []
    for tw in (0, 1):
        for ip in (0, 1):
            for n in range(0, 10): out.append((scalar, (tw, 'ScalarMult', 'V', n, ip)))
            for n in range(-9, 10): out.append((scalar, (tw, 'ScalarMult', 'Z', n, ip)))
            for n in ('min', 'pos', 'neg'): out.append((scalar, (tw, 'ScalarMult', 'I', n, ip)))
            out.append((scalar, (tw, 'ScalarMult', 'S', '', ip)))
            for k, n in (('V', 4), ('Z', 3), ('I', 'neg')): out.append((scalar, (tw, 'Ec::mul', k, n, ip)))
            out.append((scalar, (tw, 'Ec::*', 'V', 2, ip)))
        out.append((scalar, (tw, 'Ec::*=', 'V', 2, 1)))
    return out

# ---------------------------------------------------------------- validity, normalisation, equality
def retval(s):
    v = s.r.get('rax')
    return v & 0xffffffff if isinstance(v, int) else None
def truth(sc, name, fin, cond, extra=None):
    """the routine returns 1 exactly when cond holds; cond(state) -> list of (state, bool)"""
    def chk(s):
        if 'end' in s.env: return 'ends with ' + s.env['end']
        r = retval(s)
        if r not in (0, 1): return 'return value is not 0 or 1'
        for t, want in cond(s):
            if (r == 1) != want: return 'returns %d where %d is right' % (r, want)
            if extra:
                e = extra(t)
                if e: return e
    return ob(sc, name, fin, chk)
def conj_all(sc, s, es):
    """whether all of es vanish"""
    out = []; todo = [(s, list(es))]
    while todo:
        s, l = todo.pop()
        if not l: out.append((s, True)); continue
        for t, z in sc.split(s, l[0]):
            if z: todo.append((t, l[1:]))
            else: out.append((t, False))
    return out
def curve_eq(sc, form, c):
    X, Y, Z = (list(c) + [sc.F.const(1)])[:3]; m = sc.mul; F = sc.F
    if form == 'Jac': return F.sub(m(Y, Y), F.add(m(X, X, X), m(sc.b, m(Z, Z, Z), m(Z, Z, Z))))
    return F.sub(m(Y, Y, Z), F.add(m(X, X, X), m(sc.b, Z, Z, Z)))
def shape(sc, kind, form='Jac'):
    """arbitrary coordinates, not necessarily on the curve"""
    x, y = sc.var('x'), sc.var('y')
    if kind == 'zero': return [x, y, {}]
    if kind == 'one': return [x, y, sc.F.const(1)]
    z = sc.var('z')
    if kind == 'any': return [x, y, z]
    sc.nz(z)
    return [x, y, z]

@guarded
def oncurve(img, cv, twist, entry, form, n, kind):
    sc = Scenario(img, cv, twist)
    c = shape(sc, kind)[:n]; a = sc.obj(c)
    fin = sc.run('h:' + entry, [a])
    def cond(s):
        e = curve_eq(sc, form, c)
        if n == 2: return sc.split(s, e)
        out = []
        for t, z in sc.split(s, c[2]):
            if z: out.append((t, True))
            else: out += sc.split(t, e)
        return out
    return [truth(sc, '%s(%s)' % (entry, kind), fin, cond)]

@guarded
def normal(img, cv, twist, entry, form, kind, inplace):
    sc = Scenario(img, cv, twist); m = sc.mul
    c = shape(sc, kind); x, y, z = c
    if kind == 'fin': c = [m(x, z, z), m(y, z, z, z), z] if form == 'Jac' else [m(x, z), m(y, z), z]
    a = sc.obj(c, 'rwd' if inplace else 'r'); o = a if inplace else sc.alloc(3 * sc.sz, 'rwd')
    fin = sc.run('h:%s%d' % (entry, 2 if twist else 1), [a] if entry.startswith('Ec') else [o, a])
    def chk(s):
        if 'end' in s.env: return 'ends with ' + s.env['end']
        r = sc.coords(s, o)
        if kind == 'zero':
            if entry.startswith('Ec'): return None if r[2] == {} else 'the point at infinity changes'
            return None if all(v == {} for v in r) else 'infinity is not (0, 0, 0)'
        if None in r: return 'coordinate is not a field value'
        if not all(sc.iszero(s, sc.F.sub(u, v)) for u, v in zip(r, (x, y, sc.F.const(1)))): return 'result is not (x, y, 1)'
    return [ob(sc, '%s<%s>(%s%s)' % (entry, 'Fp2' if twist else 'Fp', kind, ', in place' if inplace else ''), fin, chk)]

@guarded
def equality(img, cv, twist, entry, k1, k2, same):
    sc = Scenario(img, cv, twist)
    c, P = sc.point('1', k1, on=False); a = sc.obj(c, 'rwd')
    if same: b, Q = a, P
    else: c, Q = sc.point('2', k2, on=False); b = sc.obj(c, 'rwd')
    fin = sc.run('h:%s%d' % (entry, 2 if twist else 1), [a, b])
    def cond(s):
        if P is None or Q is None: l = [(s, P is None and Q is None)]
        else: l = conj_all(sc, s, [sc.F.sub(P[0], Q[0]), sc.F.sub(P[1], Q[1])])
        return [(t, z != ('!' in entry)) for t, z in l]
    def extra(s):
        for o, R in ((a, P), (b, Q)):
            r = sc.same_point(s, sc.coords(s, o), sc.affine(R))
            if r: return 'operand changes: ' + r
    return [truth(sc, '%s<%s>(%s, %s)' % (entry, 'Fp2' if twist else 'Fp', k1, 'same' if same else k2), fin, cond, extra)]

@guarded
def setter(img, cv, twist, entry, n, verify, kind):
    sc = Scenario(img, cv, twist)
    c = shape(sc, kind); o = sc.alloc(3 * sc.sz, 'rwd')
    args = [o] + [sc.obj([v]) for v in c[:n]] + [verify]
    fin = sc.run('h:%s%d' % (entry, 2 if twist else 1), args)
    want = c[:2] + [c[2] if n == 3 else sc.F.const(1)]
    def chk(s):
        thrown = s.env.get('end') == 'throw'
        if 'end' in s.env and not thrown: return 'ends with ' + s.env['end']
        l = []
        for t, z in sc.split(s, want[2]): l += [(t, True)] if z else sc.split(t, curve_eq(sc, 'Jac', want))
        for t, on in l:
            if verify and thrown == on: return 'throws for a point of the curve' if thrown else 'accepts a point off the curve'
            if not verify and thrown: return 'throws although no check was asked for'
        if not thrown:
            r = sc.coords(s, o)
            if None in r or not all(sc.iszero(s, sc.F.sub(u, v)) for u, v in zip(r, want)): return 'coordinates are not stored'
    return [ob(sc, '%s<%s>(%s, verify=%d)' % (entry, 'Fp2' if twist else 'Fp', kind, verify), fin, chk)]

@guarded
def zerotest(img, cv, twist, entry, kind):
    sc = Scenario(img, cv, twist); c = shape(sc, kind); a = sc.obj(c)
    fin = sc.run('h:%s%d' % (entry, 2 if twist else 1), [a])
    return [truth(sc, '%s<%s>(%s)' % (entry, 'Fp2' if twist else 'Fp', kind), fin, lambda s: sc.split(s, c[2]))]

def c32_list():
    out = []
    for tw, pre in ((0, 'isOnEC'), (1, 'isOnTwistEC')):
        for k in ('any', 'zero', 'one', 'fin'):
            for f in ('Jac', 'Hom'): out.append((oncurve, (tw, pre + f + '3', f, 3, k)))
        out.append((oncurve, (tw, pre + 'Hom2', 'Hom', 2, 'any')))
        for k in ('zero', 'one', 'fin'):
            for ip in (0, 1):
                out.append((normal, (tw, 'NormalizeJac', 'Jac', k, ip))); out.append((normal, (tw, 'NormalizeHom', 'Hom', k, ip)))
            out.append((normal, (tw, 'Ec::normalize', 'Jac', k, 1)))
        for e in ('Ec::==', 'Ec::!='):
            for k1 in KINDS:
                for k2 in KINDS: out.append((equality, (tw, e, k1, k2, 0)))
                out.append((equality, (tw, e, k1, k1, 1)))
        for v in (0, 1):
            for e, n in (('Ec::set', 2), ('Ec::set', 3), ('Ec::ctor', 2), ('Ec::ctor', 3)):
                for k in ('any', 'zero', 'one', 'fin') if n == 3 else ('any',): out.append((setter, (tw, '%s%d' % (e, n), n, v, k)))
        for k in ('any', 'zero', 'one', 'fin'):
            out.append((zerotest, (tw, 'Ec::isZero', k)))
            out.append((oncurve, (tw, 'Ec::isValid%d' % (2 if tw else 1), 'Jac', 3, k)))
    return out

# ---------------------------------------------------------------- word-level predicates
PREDS = {'p:Fp::isZero': (1, 4, 'zero'), 'p:Fp2::isZero': (1, 8, 'zero'), 'p:Fp::compare': (2, 4, 'cmp'), 'p:Fp2::==': (2, 8, 'eq'),
         'p:Fp2::!=': (2, 8, 'ne'), 'p:Fp::==': (2, 4, 'eq')}
@guarded
def predicate(img, cv, entry, same=0):
    """the predicates the layers above use, on arbitrary words"""
    k, n, what = PREDS[entry]
    vals = [Val(n, None)]; vals.append(vals[0] if same else Val(n, None)); mem = []; regions = []; ad = []
    for i in range(k):
        a = 0x100000000 + SP * (0 if same else i); ad.append(a)
        mem += [(a + 8 * j, 8, TW(vals[i], j)) for j in range(n)]; regions.append((a, a + 8 * n, 'r'))
    tm = TM(img, regions); tm.wordcmp = True
    fin = tm.run(tm.start(img.entries[entry], ad, mem))
    def known(s, j):
        """comparison of word j of the two operands"""
        x, y = wkey(TW(vals[0], j)), wkey(TW(vals[1], j))
        if x == y: return 'eq'
        for w in s.env.get('words', ()):
            if w[0] in ('eq', 'lt', 'gt') and {w[1], w[2]} == {x, y}: return w[0] if w[1] == x or w[0] == 'eq' else {'lt': 'gt', 'gt': 'lt'}[w[0]]
            if w[0] == 'zero' and ('x',) + tuple(sorted((x, y))) in w[1]: return 'eq'
    def chk(s):
        if 'end' in s.env: return 'ends with ' + s.env['end']
        r = s.r.get('rax')
        if isinstance(r, LowB): return 'the whole return register is not set'
        if not isinstance(r, int): return 'unknown return value'
        r &= 0xffffffff; W = s.env.get('words', ())
        if what == 'zero':
            z = set().union(*[w[1] for w in W if w[0] == 'zero']); allw = {wkey(TW(vals[0], j)) for j in range(n)}
            nz = any(w[0] == 'nonzero' and w[1] <= allw for w in W)
            if r == 1 and z >= allw or r == 0 and nz: return None
            return 'the answer %d does not follow from the words' % r
        if what in ('eq', 'ne'):
            ks = [known(s, j) for j in range(n)]
            if all(k == 'eq' for k in ks): want = 1
            elif any(k in ('lt', 'gt') for k in ks) or any(w[0] == 'nonzero' and all(q[0] == 'x' for q in w[1]) for w in W): want = 0
            else: return 'the words do not decide the answer %d' % r
            return None if r == (want if what == 'eq' else 1 - want) else 'answers %d wrongly' % r
        for j in reversed(range(n)):
            q = known(s, j)
            if q is None: return 'the words do not decide the answer'
            if q != 'eq':
                return None if (r == 1 and q == 'gt') or (r >> 31 and q == 'lt') else 'answers %d wrongly' % r
        return None if r == 0 else 'answers %d for equal operands' % r
    class S: pass
    sc = S(); sc.tm = tm
    return [ob(sc, '%s%s' % (entry[2:], ' (same object)' if same else ''), fin, chk)]
def pred_list():
    return [(predicate, (e, sm)) for e, (k, n, w) in sorted(PREDS.items()) for sm in ((0, 1) if k == 2 else (0,))]

def constants(img, cv, tag):
    p = cv['p']; Ri = pow(1 << 256, -1, p); out = []
    def fp(a): return int.from_bytes(bytes(img.mem0.read(a + i, 1) for i in range(32)), 'little')
    def chk(name, sym, want):
        a = img.symaddr.get(sym)
        got = None if a is None else [fp(a + 32 * i) for i in range(len(want))]
        ok = got is not None and all(g < p and g * Ri % p == w % p for g, w in zip(got, want))
        out.append(dict(name='%s [%s]' % (name, tag), ok=ok, detail='' if ok else '%s is %s' % (sym, got), kind='constant'))
    xi = cv['xi']; n = pow(xi[0] ** 2 + xi[1] ** 2, -1, p); b = cv['b']
    chk('twist coefficient is b/xi', 'bn::ParamT<bn::Fp2T<mie::Fp> >::b_invxi', [b * xi[0] * n, -b * xi[1] * n])
    chk('one', 'mie::Fp::one_', [pow(1 << 256, -1, p)])
    return out

# ---------------------------------------------------------------- the p-power map on the twist
def xipow(cv, e):
    p = cv['p']; a = tuple(cv['xi']); r = (1, 0)
    while e:
        if e & 1: r = ((r[0] * a[0] - r[1] * a[1]) % p, (r[0] * a[1] + r[1] * a[0]) % p)
        a = ((a[0] * a[0] - a[1] * a[1]) % p, 2 * a[0] * a[1] % p); e >>= 1
    return r
@guarded
def frobtwist(img, cv, k):
    """FrobEndOnTwist_k is the map induced on the twist by the p^k-power map: with w^6 = xi the point (x w^2, y w^3) of the
    curve goes to (x^(p^k) w^(2 p^k), y^(p^k) w^(3 p^k))"""
    sc = Scenario(img, cv, 1); x, y = sc.var('x'), sc.var('y'); p = cv['p']
    a = sc.obj([x, y]); o = sc.alloc(128, 'rwd')
    fin = sc.run('h:Frob%d' % k, [o, a])
    g2, g3 = sc.D.c2(xipow(cv, (p - 1) // 3)), sc.D.c2(xipow(cv, (p - 1) // 2))
    for _ in range(k): x = sc.mul(sc.D.conj(x), g2); y = sc.mul(sc.D.conj(y), g3)
    def chk(s):
        if 'end' in s.env: return 'ends with ' + s.env['end']
        r = sc.coords(s, o, 2)
        if None in r: return 'coordinate is not a field value'
        for n, u, v in zip('xy', r, (x, y)):
            if not sc.iszero(s, sc.F.sub(u, v)): return '%s coordinate differs' % n
    return [ob(sc, 'FrobEndOnTwist_%d' % k, fin, chk)]
def frob_list(): return [(frobtwist, (k,)) for k in (1, 2, 8)]
def norm_list(): return [x for x in c32_list() if x[0] is normal and x[1][1] in ('NormalizeJac', 'Ec::normalize')]
