"""obligations of the powers over compressed squarings: fixed_power and decompress run on powers of one
element x of the cyclotomic subgroup.

x^e is six ghost unknowns of F_p2 bound by the relations of contracts.decompression.  square_n is replaced by
its contract (n compressed squarings: components g2..g5 of x^e become those of x^(e 2^n), see the lemmas), the
multiplication of F_p12 by its contract."""
from tok import *
from ecprops import guarded, ob
from contracts import decompression
F2 = 'bn::Fp2T<mie::Fp>'; F6 = 'bn::Fp6T<%s >' % F2; F12 = 'bn::Fp12T<bn::Fp6T<%s> >' % F2
O, A1 = 0x100000000, 0x100001000
LIVE = (1, 2, 3, 5)          # places of g4, g3, g2, g5

class CycDom(PolyDom):
    def __init__(self, cv, ident):
        PolyDom.__init__(self, cv); self.ident = ident; self.pow = {}
    def elem(self, s, e):
        """components of x^e on this path: list of six values (and the path's knowledge of g2)"""
        if self.ident: return [{(): 1}] + [{}] * 5
        g = self.pow.get(e)
        if g is None: g = self.pow[e] = [self.var2('g%d_%d' % (i, e)) for i in range(6)]
        return g
    def bind_elem(self, s, e):
        """states in which the facts about x^e are available: g2 = 0 or not; (g2, g3) = (0, 0) only for the identity"""
        if self.ident or e in s.env.get('known', ()): return [s]
        g = self.elem(s, e); out = []
        for z in (0, 1):
            t = s.copy(); t.env['known'] = t.env.get('known', ()) + (e,)
            if z:
                self.assume(t, g[3], True); n = g[2]
            else: n = g[3]
            t.env['nz'] = t.env.get('nz', ()) + (n, self.conj(n))
            t.env['case'] = {**t.env.get('case', {}), e: z}
            out.append(t)
        return out
    def facts(self, s, e):
        g = [[self.norm(s, v)] for v in self.elem(s, e)]
        E0, E1, E2 = decompression(self.C, g)
        r = [E0[0], E1[0]]
        if s.env.get('case', {}).get(e): r.append(E2[0])
        return r
    def equal(self, s, a, b, e):
        """a = b follows from the facts about x^e and the inverses taken on this path"""
        F = self.F
        d = self.norm(s, F.sub(a, b))
        if not d: return True
        if self.ident: return False
        fs = self.facts(s, e)
        fs += [self.conj(f) for f in fs]
        if F.inspan(d, fs): return True
        # multiply by what has been inverted (non-zero), then reduce by inv * v = 1
        for key, w in s.env.get('invs', {}).items():
            v = dict(key[1]); d2 = self.norm(s, F.mul(d, v)); d2 = self.clear(s, d2, v, w)
            if not d2: return True
            rels = [q for q in fs]
            g = self.elem(s, e)
            mult = [v] + [q for q in (self.norm(s, h[3]) for k, h in self.pow.items()) if q] + [q for q in (self.norm(s, h[2]) for k, h in self.pow.items()) if q]
            more = [F.mul(q, m) for q in fs for m in mult]
            if F.inspan(d2, rels + more): return True
        return False
    def clear(self, s, d, v, w):
        """replace w * v by 1 where v is a monomial"""
        F = self.F
        if len(v) == 1:
            (m, c), = v.items(); out = {}
            wv, = [k[0] for k in w]
            ci = pow(c, -1, self.p)
            for mm, cc in d.items():
                l = list(mm); k = cc
                while wv in l and all(l.count(x) >= m.count(x) for x in m):
                    for x in m: l.remove(x)
                    l.remove(wv); k = k * ci % self.p
                t = tuple(l); q = (out.get(t, 0) + k) % self.p
                if q: out[t] = q
                else: out.pop(t, None)
            return out
        return d
    def inverse(self, tm, s, v, t):
        if self.ident and not self.norm(s, v): return None           # the routine is executed on this value
        return PolyDom.inverse(self, tm, s, v, t)
    def fp(self, tm, s, a):
        if self.ident:
            ws = self.words(tm, s, a, 4)
            if all(isinstance(w, int) for w in ws) and sum(w << 64 * i for i, w in enumerate(ws)) >= self.p: return None    # executed, not abstracted
        return PolyDom.fp(self, tm, s, a)
    def put(self, tm, s, a, n, v):
        if n == 8 and not self.ident and s.env.get('invs'):
            # a recovered g1 is recognised where it is stored
            iv = set(k[0] for w in s.env['invs'].values() for k in w)
            if any(x in iv for m in v for x in m):
                for e, g in self.pow.items():
                    if e in s.env.get('known', ()) and self.equal(s, v, g[4], e): v = g[4]; break
        return PolyDom.put(self, tm, s, a, n, v)

class Powers:
    def __init__(self, img, cv, ident):
        self.img = img; self.cv = cv; self.D = CycDom(cv, ident); self.ident = ident
        self.N = cv['p'] ** 4 - cv['p'] ** 2 + 1
    def comps(self, tm, s, a): return [self.D.fp2(tm, s, a + 64 * i) for i in range(6)]
    def which(self, tm, s, a, places=range(6)):
        """e with x^e = the value at a (in the given components)"""
        c = self.comps(tm, s, a)
        if self.ident:
            w = [{(): 1}] + [{}] * 5
            return 0 if all(c[i] == w[i] for i in places) else None
        if all(c[i] is not None and c[i] == ({(): 1} if i == 0 else {}) for i in places) and 0 in places: return 0
        for e, g in self.D.pow.items():
            if all(c[i] is not None and self.D.equal(s, c[i], g[i], e) for i in places): return e
        return None
    def store(self, tm, s, a, e, places=range(6)):
        g = self.D.elem(s, e)
        for i in places: self.D.put(tm, s, a + 64 * i, 8, g[i])
    def hooks(self):
        img = self.img; H = self.D.hooks(img)
        for nm in ('Fp12::mul',):
            a = img.entries.get(nm, 0)
            if a: H[a] = self.h_mul
        for a, ds in img.syms.items():
            for d in ds:
                if d.startswith(F12 + '::mulC('): H[a] = self.h_mul
                if d.startswith('bn::CompressT<%s >::square_nC(' % F2) or d.startswith('bn::CompressT<%s>::square_nC(' % F2): H[a] = self.h_squaren
        a = img.entries.get('Compress::square_n', 0)
        if a: H[a] = self.h_squaren
        return H
    def h_mul(self, tm, s):
        z, x, y = s.r['rdi'], s.r['rsi'], s.r['rdx']
        e, f = self.which(tm, s, x), self.which(tm, s, y)
        if e is None or f is None: raise Unsupported('factor is not known to be a power of x')
        tm.used['Fp12::mul'] = 1
        outs = self.D.bind_elem(s, e + f) if e + f else [s]
        for t in outs: self.store(tm, t, z, e + f); tm.ret(t)
        return outs
    def h_squaren(self, tm, s):
        c = s.r['rdi']; n = s.r['rsi']         # the routine uses all 64 bits of rsi
        z = tm.rd(s, c, c, 8)
        if not isinstance(n, int) or not isinstance(z, int): raise Unsupported('square_n of unknown arguments')
        if not 1 <= n < 1 << 31: raise Unsupported('square_n requires at least one squaring')
        e = self.which(tm, s, z, LIVE)
        if e is None: raise Unsupported('operand of square_n is not a compressed power of x')
        tm.used['Compress::square_n'] = 1
        tm.counts.add(n)
        f = e << n
        # 2^n is invertible modulo the (odd) order of x: x^f is the identity only if x is
        outs = self.D.bind_elem(s, f) if f else [s]
        for t in outs:
            for i in LIVE: self.D.put(tm, t, z + 64 * i, 8, self.D.elem(t, f)[i])
            tm.ret(t)
        return outs

def start(P, tm, entry, args):
    D = P.D; mem = []
    s0 = tm.start(P.img.entries[entry], args, [], {})
    g = D.elem(s0, 1)
    for i in range(6):
        for a, n, v in D.mem(A1 + 64 * i, 8, g[i]): s0.m[a] = (n, v)
    return D.bind_elem(s0, 1)
def go(img, cv, ident, entry, n, want, name):
    P = Powers(img, cv, ident)
    tm = TM(img, [(O, O + 384, 'rwd'), (A1, A1 + 384, 'r')]); tm.hooks = P.hooks(); tm.counts = set()
    fin = []
    for s in start(P, tm, entry, [O, A1] + ([n] if n is not None else [])): fin += tm.run(s)
    class S: pass
    sc = S(); sc.tm = tm
    def chk(s):
        if 'end' in s.env: return 'ends with ' + s.env['end']
        e = P.which(tm, s, O)
        if e is None: return 'the result is not a power of x'
        if not ident and e != want: return 'the result is x^%d, not x^%d' % (e, want)
    o = ob(sc, name, fin, chk); o['counts'] = sorted(tm.counts)
    return [o]
@guarded
def fixedpower(img, cv, ident):
    return go(img, cv, ident, 'h:fixed_power', None, abs(cv['z']), 'fixed_power(%s)' % ('1' if ident else 'x'))
@guarded
def decompress(img, cv, ident, n):
    if n == 0: return go(img, cv, ident, 'h:decompress0', None, 1, 'decompress(compress %s)' % ('1' if ident else 'x'))
    return go(img, cv, ident, 'h:decompress', n, 1 << n, 'decompress(square_n(%s, %d))' % ('1' if ident else 'x', n))
def c24_list(): return [(decompress, (i, n)) for i in (0, 1) for n in (0, 1, 7)]
def c24_fixed(): return [(fixedpower, (i,)) for i in (0, 1)]
