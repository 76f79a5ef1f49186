"""Fp::preInv (the loop of the almost Montgomery inverse) and Fp::inv.

Ghost values: at the head of the loop the machine state holds (u, v, r, s, k) with, for x the argument and K = 2^k,
   I1  u s + v r = p          I2  x r + u K = 0, x s - v K = 0 (mod p)      I3  (u + v) K >= p + x      I4  u v K <= p x
   I5  u >= 1                 I6  v >= 1, or r is even and r <= 2p          k <= 508
The obligations on the machine code are that every path from the head to the head takes one of the linear steps STEPS,
that the words do not overflow, and what the exit path returns; that the steps preserve the invariant and what follows
at the exit are the lemmas of inv_lemmas, polynomial identities and sign conditions."""
import random
from jit import *
from dom import *
import contracts
from jitcheck import Ob, A0, backward_jump

# new (u, v, r, s) as rows of coefficients over the old ones (halving is exact)
STEPS = {'v even': ((2, 0, 0, 0), (0, 1, 0, 0), (0, 0, 4, 0), (0, 0, 0, 2)),
         'u even': ((1, 0, 0, 0), (0, 2, 0, 0), (0, 0, 2, 0), (0, 0, 0, 4)),
         'v := (v - u)/2': ((2, 0, 0, 0), (-1, 1, 0, 0), (0, 0, 4, 0), (0, 0, 2, 2)),
         'u := (u - v)/2': ((1, -1, 0, 0), (0, 2, 0, 0), (0, 0, 2, 2), (0, 0, 0, 4))}
NAMES = 'uvrs'

def trace(m, s0, H, p, x, n):
    """cells at the first n arrivals at H of a concrete run, with the ghost values"""
    out = []; g = [p, x, 0, 1, 0]
    def cells(s):
        d = {('r', k): v for k, v in s.r.items()}
        for k, v in s.x.items():
            for i, w in enumerate(v): d['x', k, i] = w
        for a in s.mem:
            if isinstance(a, int) and s.r['rsp'] <= a < s.stack_hi and type(s.mem[a]) is not dict: d['m', a] = s.mem[a]
        return d
    def cut(mm, s):
        out.append((cells(s), list(g)))
        u, v, r, t, k = g
        if v:
            if u % 2 == 0: u >>= 1; t *= 2
            elif v % 2 == 0: v >>= 1; r *= 2
            elif v >= u: v = (v - u) >> 1; t += r; r *= 2
            else: u = (u - v) >> 1; r += t; t *= 2
            g[:] = [u, v, r, t, k + 1]
        if len(out) >= n: s.user['end'] = 'stop'; return [s]
    m.cuts = {H: cut}
    try: m.run(s0)
    finally: m.cuts = {}
    return out

def verify(je, img_regions):
    p = je.p; m = je.m; obs = []; tag = 'Fp::preInv'
    def ob(n, ok, d='', k='value'):
        obs.append(Ob('%s: %s' % (tag, n), bool(ok), '' if ok else d, k)); return bool(ok)
    ent = je.img.entries['Fp::preInv']; heads = backward_jump(je.img, ent)
    if not ob('one loop', len(heads) == 1, 'found %d' % len(heads), 'limit'): return obs
    H, = heads
    OUT, X = A0, A0 + 0x10000
    regions = list(img_regions) + [(OUT, OUT + 32, 'w'), (X, X + 32, 'r')]
    je.contracts = {}; je.use_contracts = False
    old_step = m.step; m.hooks.pop('*', None)
    # where the ghost values live: the same cells on concrete runs
    rnd = random.Random(3); where = None; const = None; diff = set()
    for _ in range(3):
        x = rnd.randrange(p)
        s = m.start(ent, [OUT, X]); s.regions = regions
        for i in range(4): s.mem[X + 8 * i] = x >> 64 * i & M64
        for i, r in enumerate(('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15', 'rax', 'rcx', 'r8', 'r9', 'r10', 'r11', 'rdx')): s.r.setdefault(r, 0x123450000 + i)
        s.user['pend'] = set()
        tr = trace(m, s, H, p, x, 450)
        vals = lambda g, i, j: g[i] >> 64 * j & M64 if i < 4 else g[4]
        keys = set.intersection(*[set(c) for c, g in tr])
        keys = {k for k in keys if all(isinstance(c[k], int) for c, g in tr)}
        w = {(i, j): {k for k in keys if all(c[k] == vals(g, i, j) for c, g in tr)} for i in range(5) for j in range(4 if i < 4 else 1)}
        diff |= {k for k in keys if any(c[k] != tr[0][0][k] for c, g in tr)}
        where = w if where is None else {q: where[q] & w[q] for q in w}
    if not ob('u, v, r, s and k have a place in the machine state at the head of the loop', all(where.values()), 'no place for %s' % [NAMES[i] + str(j) if i < 4 else 'k' for (i, j), w in where.items() if not w], 'limit'):
        return obs
    # symbolic run
    m.step = old_step
    s = m.start(ent, [OUT, X]); s.regions = regions; s.user['settling'] = True; s.user['pend'] = set()
    xg = je.new_group(s, X, 4, p - 1, 'x'); saved = {}
    s.ctx.fact(xg.E, 1, None)
    for r in ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15'): saved[r] = s.r[r] = s.ctx.fresh('callee_' + r)
    for r in ('rax', 'rcx', 'r8', 'r9', 'r10', 'r11', 'rdx'): s.r.setdefault(r, s.ctx.fresh('arg_' + r))
    s.user['saved'] = saved
    def cells(s):
        d = {('r', k): v for k, v in s.r.items()}
        for k, v in s.x.items():
            for i, w in enumerate(v): d['x', k, i] = w
        for a in s.mem:
            if s.r['rsp'] <= a < s.stack_hi: d['m', a] = s.mem[a]
        return d
    def put(s, k, v):
        if k[0] == 'r': s.r[k[1]] = v
        elif k[0] == 'x': s.x[k[1]][k[2]] = v
        else: s.mem[k[1]] = v
    def total(c, i):
        t = {}
        for j in range(4):
            w = c.get(min(where[i, j]))
            if not isinstance(w, (int, Word)): return None
            t = padd(t, pscale(poly(w), 1 << 64 * j))
        return t
    def upto(s, q):
        for var, rep in s.user.get('subst', []):
            if any(var in mm for mm in q):
                r = {}
                for mm, c in q.items():
                    t = {tuple(v for v in mm if v != var): c}
                    for _ in range(mm.count(var)): t = pmul(t, rep)
                    r = padd(r, t)
                q = r
        return q
    def eq(s, a, b):
        d = psub(upto(s, a), upto(s, b))
        return not d or (s.ctx.prove_ge0(d) and s.ctx.prove_ge0(pscale(d, -1)))
    G = {}
    def places(s, now, when):
        bad = [q for q in where if len(where[q]) > 1 and any(now.get(k) is not now.get(min(where[q])) and poly(now[k]) != poly(now[min(where[q])]) for k in where[q])]
        ob('%s: copies of the ghost values agree' % when, not bad, '%s' % bad)
    def cut(mm, s):
        if s.user.get('pend'): je.flush(s)
        n = s.user['arr'] = s.user.get('arr', 0) + 1; now = cells(s)
        if n == 1:
            for i, v in enumerate((pconst(p), xg.E, {}, pconst(1))): ob('on entry %s = %s' % (NAMES[i], ('p', 'x', '0', '1')[i]), total(now, i) is not None and eq(s, total(now, i), v), '')
            ob('on entry k = 0', now.get(min(where[4, 0])) == 0, '', 'count')
            places(s, now, 'on entry')
            ghost = {k for w in where.values() for k in w}
            keep = {k: v for k, v in now.items() if k not in ghost and k not in diff}
            for k in now:
                if k not in ghost and k in diff: put(s, k, s.ctx.fresh('any'))
            for i in range(4):
                t = {}
                for j in range(4):
                    if j == 0 and i < 2: q = padd(pvar(newvar(NAMES[i] + 'bit', 0, 1)), pscale(pvar(newvar(NAMES[i] + 'half', 0, (1 << 63) - 1)), 2))
                    else: q = pvar(newvar('%s%d' % (NAMES[i], j), 0, M64))
                    w = Word(q, 0, M64)
                    for k in where[i, j]: put(s, k, w)
                    t = padd(t, pscale(q, 1 << 64 * j))
                G[i] = t
            kw = s.ctx.fresh('k', 0, 508); G[4] = kw.p
            for k in where[4, 0]: put(s, k, kw)
            for i in (0, 1): s.ctx.fact(G[i], 0 if i else 1, p)
            # r + s <= p while v >= 1, r <= 2p otherwise: the branch on v comes later, so the weaker bounds go first
            s.ctx.fact(G[2], 0, 2 * p); s.ctx.fact(G[3], 1, p)
            s.user['keep'] = keep; s.user['bound'] = False
            s.cf = None; s.zs = None; s.src = None
            return None
        when = 'an iteration'
        new = [total(now, i) for i in range(4)]
        if not ob(when + ': the ghost values keep their places', all(t is not None for t in new)): s.user['end'] = 'lost'; return [s]
        step = None
        for nm, rows in STEPS.items():
            if all(eq(s, pscale(new[i], 2), lin(rows[i])) for i in range(4)): step = nm; break
        ob(when + ': takes one of the four steps', step is not None, 'path %s' % s.trail[-4:])
        s.user['took'] = step
        if step == 'u := (u - v)/2': ob(when + ': u > v before u := (u - v)/2', s.ctx.prove_ge0(upto(s, psub(psub(G[0], G[1]), pconst(1))), integral=True))
        ob(when + ': counts', eq(s, poly(now[min(where[4, 0])]), padd(G[4], pconst(1))), '', 'count')
        ob(when + ': is made only with v > 0', s.ctx.prove_ge0(upto(s, psub(G[1], pconst(1))), integral=True), '', 'count')
        places(s, now, when)
        bad = [k for k, v in s.user['keep'].items() if not (now.get(k) is v or (isinstance(v, int) and now.get(k) == v) or (isinstance(v, Word) and isinstance(now.get(k), Word) and upto(s, v.p) == now[k].p))]
        ob(when + ': preserves the cells that live across it', not bad, '%s' % bad[:4], 'frame')
        s.user['end'] = 'again'
        return [s]
    def lin(row):
        t = {}
        for c, i in zip(row, range(4)): t = padd(t, pscale(G[i], c))
        return t
    branch = m.branch
    def after(s, was):
        """once v >= 1 is known on this path, r + s <= p holds (lemma)"""
        if s.user.get('arr') == 1 and not s.user.get('bound') and s.ctx.prove_ge0(upto(s, psub(G[1], pconst(1))), integral=True):
            s.user['bound'] = True; s.ctx.fact(padd(G[2], G[3]), 1, p)
    def br(s, c, taken, fall):
        r = branch(s, c, taken, fall)
        for t in (r if isinstance(r, list) else [s]): after(t, 0)
        return r
    m.branch = br; m.cuts = {H: cut}
    try: fin = m.run(s)
    except Unsupported as e: return obs + [Ob(tag + ': execution', False, 'verifier limit: %s' % e, 'limit')]
    except (RecursionError, Infeasible): return obs + [Ob(tag + ': execution', False, 'verifier limit', 'limit')]
    finally:
        m.cuts = {}; m.branch = branch
    took = {f.user.get('took') for f in fin}
    ob('the loop is entered, repeated and left', {'again', 'ret'} <= {f.user.get('end') for f in fin}, '', 'frame')
    for f in fin:
        ob('reads and writes stay inside the objects and the frame', not f.events, ' '.join('%s' % (e,) for e in f.events[:4]), 'frame')
        if f.user.get('end') != 'ret': continue
        if f.user.get('pend'): je.flush(f)
        ob('the loop is left only with v = 0', eq(f, G[1], {}), '', 'count')
        out = {}
        for j in range(4): out = padd(out, pscale(poly(f.read(OUT + 8 * j, 8)), 1 << 64 * j))
        ob('the result is 2p - r', eq(f, out, psub(pconst(2 * p), G[2])))
        ob('returns k', eq(f, poly(f.getreg('rax', 32, 0)), G[4]), '', 'count')
        bad = [r for r in f.user['saved'] if f.r[r] is not f.user['saved'][r]]
        ob('callee-saved registers and stack pointer restored', not bad and f.r['rsp'] == f.stack_hi, 'clobbered %s' % bad, 'frame')
    return obs

# ---------------------------------------------------------------- Fp::inv and what is built on it, by the compiled code
import tok
from ecprops import guarded, ob as hob
from tok import TM, PolyDom, TW, Val
OUT, XA, YA = 0x100000000, 0x100001000, 0x100002000
class SC: pass

def lemmas(cv):
    """STEPS preserve the invariants of the loop; what the invariants say at the exit"""
    p = cv['p']; F = {}; out = []
    def eq(n, a, b): out.append((n, not psub(a, b)))
    def nonneg(n, a, over=()):
        """a polynomial in non-negative unknowns whose coefficients are non-negative"""
        out.append((n, all(c >= 0 for c in a.values())))
    u, v, r, s, K, x, d = (pvar(newvar(c, 0, None)) for c in 'uvrsKxd')
    g = (u, v, r, s)
    A = lambda u, v, r, s: padd(pmul(u, s), pmul(v, r))
    B = lambda u, v, r, s, K: (padd(pmul(x, r), pmul(u, K)), psub(pmul(x, s), pmul(v, K)))
    P = pconst
    out.append(('entry: us + vr = p, xr + uK = xs - vK = 0 modulo p, (u + v) K = p + x, r = 0 is even',
        A(P(p), x, P(0), P(1)) == P(p) and all(all(c % p == 0 for c in q.values()) for q in B(P(p), x, P(0), P(1), P(1)))))
    for nm, rows in STEPS.items():
        n2 = []                                  # twice the new values
        for row in rows:
            t = {}
            for c, q in zip(row, g): t = padd(t, pscale(q, c))
            n2.append(t)
        a2 = psub(padd(pmul(n2[0], n2[3]), pmul(n2[1], n2[2])), pscale(A(*g), 4))
        eq('%s: us + vr is unchanged' % nm, a2, {})
        K2 = pscale(K, 2)
        nb, nc = B(*[n2[i] for i in range(4)], K2)              # twice the new relations
        b, c = B(*g, K)
        ok = [any(not psub(q, padd(pscale(b, i), pscale(c, j))) for i in range(-4, 5) for j in range(-4, 5)) for q in (nb, nc)]
        out.append(('%s: xr + uK and xs - vK stay multiples of p' % nm, all(ok)))
        nonneg('%s: (u + v) K does not shrink' % nm, psub(pmul(padd(n2[0], n2[1]), K), pmul(padd(u, v), K)))
        # u v K does not grow (for v := (v - u)/2 and u := (u - v)/2 the difference is u^2 K, v^2 K)
        nonneg('%s: u v K does not grow' % nm, psub(pscale(pmul(pmul(u, v), K), 2), pmul(pmul(n2[0], n2[1]), K)))
        nonneg('%s: r and s do not shrink' % nm, padd(psub(n2[2], pscale(r, 2)), {}) ); nonneg('%s: s does not shrink' % nm, psub(n2[3], pscale(s, 2)))
        for i in (0, 1):
            dd = psub(pscale(g[i], 2), n2[i])
            out.append(('%s: %s stays in range' % (nm, NAMES[i]), all(c >= 0 for c in dd.values())))
        out.append(('%s: r is doubled wherever v changes' % nm, n2[1] == pscale(v, 2) or n2[2] == pscale(r, 4)))
    one = pconst(1); U, V = padd(u, one), padd(v, one)         # u >= 1, v >= 1
    nonneg('u, v >= 1: r + s <= us + vr = p', psub(A(U, V, r, s), padd(r, s)))
    nonneg('u >= 1: s <= us + vr = p', psub(A(U, v, r, s), s))
    nonneg('u, v >= 1: K <= uvK', psub(pmul(pmul(U, V), K), K))
    out.append(('K <= uvK <= p x < p^2 <= 2^508 while v >= 1', p * p <= 1 << 508))
    out.append(('p is prime (Miller-Rabin)', probable_prime(p)))
    out.append(('at the exit us = p and p | x s, so s = p, u = 1, v = 0 and K >= p + x > 2^253', p > 1 << 253))
    out.append(('2p - 2 fits 256 bits; 2^512 fits the table', 2 * p < 1 << 256))
    out.append(('p = 3 modulo 4: x^((p+1)/4) squared is x for every square x', p % 4 == 3 and all(pow(w * w, (p + 1) // 4, p) ** 2 % p == w * w % p for w in (0, 1, 2, 3))))
    return out
def probable_prime(n):
    d = n - 1; k = 0
    while d % 2 == 0: d //= 2; k += 1
    for a in list(range(2, 200)):
        y = pow(a, d, n)
        if y in (1, n - 1): continue
        for _ in range(k - 1):
            y = y * y % n
            if y == n - 1: break
        else: return False
    return True

@guarded
def inv_body(img, cv, alias):
    """Fp::inv over the contracts of preInv and Fp::mul, for every count preInv can return"""
    p = cv['p']; R = (1 << 256) % p; Ri = pow(R, -1, p)
    a_pre, a_mul = img.entries['Fp::preInv'], img.entries['Fp::mul']
    o = XA if alias else OUT
    bad = []; n = 0; tm = None
    for k in range(254, 509):
        D = PolyDom(cv); F = D.F; x = D.var('x'); w = D.var('1/x')
        D.addrel(F.sub(F.mul(x, w), F.const(1)))
        tm = TM(img, [(o, o + 32, 'rwd'), (XA, XA + 32, 'rw' if alias else 'r')]); calls = []
        H = {q: h for q, h in D.hooks(img).items() if not any(d.startswith('mie::Fp::inv(') for d in img.syms.get(q, ()))}
        raw = Val(4, F.scale(w, (Ri * Ri << k) % p))         # 2^k / x in the stored form's units, at most 2p - 2
        def h_pre(tm, s):
            r, a = s.r['rdi'], s.r['rsi']
            if not isinstance(r, int) or not isinstance(a, int) or D.fp(tm, s, a) != x: tm.flag(s, 'preInv is not given the argument'); 
            if isinstance(r, int) and r < XA + 32 and XA < r + 32: tm.flag(s, 'preInv works in place')
            for i in range(4): tm.wr(s, r + 8 * i, r + 8 * i, 8, TW(raw, i))
            calls.append('preInv')
            return tm.ret(s, k)
        old = H[a_mul]
        def h_mul(tm, s):
            ws = lambda r: [tm.rd(s, s.r[r] + 8 * i, s.r[r] + 8 * i, 8) for i in range(4)] if isinstance(s.r[r], int) else [None]
            loose = [r for r in ('rsi', 'rdx') if any(isinstance(q, TW) and q.val is raw for q in ws(r))]
            if loose and (loose != ['rsi'] or s.r['rdi'] in (s.r['rsi'], s.r['rdx'])): tm.flag(s, 'the result of preInv is multiplied outside the contract Fp::mul<2p')
            calls.append('mul')
            return old(tm, s)
        H[a_pre] = h_pre; H[a_mul] = h_mul
        tm.hooks = H
        mem = D.mem(XA, 4, x)
        fin = tm.run(tm.start(img.entries['h:Fp::inv'], [o, XA], mem, {}))
        for s in fin:
            n += 1
            if 'end' in s.env: bad.append('k = %d: ends with %s' % (k, s.env['end'])); continue
            if 'preInv' not in calls: bad.append('preInv is not called'); continue
            v = D.fp(tm, s, o)
            vs = [tm.rd(s, o + 8 * i, o + 8 * i, 8) for i in range(4)]
            if v is None or any(isinstance(q, TW) and q.val is raw for q in vs) or D.norm(s, F.sub(F.mul(v, x), F.const(1))): bad.append('k = %d: x * inv(x) is not 1' % k)
        bad += ['k = %d: %s at %#x' % ((k,) + q) for q in tm.bad]
        if not fin: bad.append('no path returns')
    return [dict(name='Fp::inv(x%s) * x = 1 for every count in 254..508' % (', in place' if alias else ''), ok=not bad, detail='; '.join(bad[:3]), kind='value', steps=n, paths=n, used=['Fp::preInv', 'Fp::mul<2p'])]

@guarded
def quotient(img, cv, entry, pat):
    """x / y over the contract of Fp::inv; pat: the objects of the result and the operands"""
    D = PolyDom(cv); F = D.F; tm = TM(img, []); sc = SC(); sc.tm = tm
    sl = {c: 0x100000000 + 0x1000 * i for i, c in enumerate('zxy')}
    vals = {c: D.var(c) for c in sorted(set(pat))}
    ad = [sl[c] for c in pat]
    tm.regions += [(sl[c], sl[c] + 32, 'rw' + ('d' if c == pat[0] else '')) if c == pat[0] else (sl[c], sl[c] + 32, 'r') for c in set(pat)]
    mem = [q for c in set(pat) for q in D.mem(sl[c], 4, vals[c])]
    den = vals[pat[-1]]; num = F.const(1) if entry == 'h:Fp::inverse' else vals[pat[-2]]
    env = {'nz': (den,)}
    tm.hooks = D.hooks(img)
    fin = tm.run(tm.start(img.entries[entry], ad, mem, env))
    def chk(s):
        if 'end' in s.env: return 'ends with ' + s.env['end']
        v = D.fp(tm, s, ad[0])
        if v is None: return 'the result is not a field value'
        if D.norm(s, F.sub(F.mul(v, den), num)): return 'result * divisor is not the dividend'
        for c in set(pat) - {pat[0]}:
            if D.fp(tm, s, sl[c]) != vals[c]: return 'an operand is changed'
    return [hob(sc, '%s(%s)' % (entry[2:], pat), fin, chk)]

class RootDom(PolyDom):
    """powers of one element: one unknown for every exponent"""
    def __init__(self, cv):
        PolyDom.__init__(self, cv); self.of = {}; self.ex = {}
    def pw(self, e):
        if e == 0: return {(): 1}
        if e not in self.of:
            v = self.of[e] = self.var('x^%d' % e); self.ex[list(v)[0][0]] = e
        return self.of[e]
    def apply(self, tm, s, c, ins):
        r = PolyDom.apply(self, tm, s, c, ins)
        if r is None: return None
        out = {}
        for m, k in r.items():
            if any(v not in self.ex for v in m): return r
            out = self.F.add(out, self.F.scale(self.pw(sum(self.ex[v] for v in m)), k))
        return out
    def norm(self, s, a): return a
    def sign(self, s, a):
        return 0 if not a else 1 if self.isconst(a) else None
    def assume(self, s, a, zero):
        s.env['dec'] = s.env.get('dec', ()) + ((tuple(sorted(a.items())), zero),)
@guarded
def root(img, cv, alias):
    p = cv['p']; D = RootDom(cv); F = D.F; o = XA if alias else OUT
    tm = TM(img, [(o, o + 32, 'rwd'), (XA, XA + 32, 'rw' if alias else 'r')]); tm.hooks = D.hooks(img); sc = SC(); sc.tm = tm
    x = D.pw(1)
    fin = tm.run(tm.start(img.entries['h:Fp::squareRoot'], [o, XA], D.mem(XA, 4, x), {}))
    def chk(s):
        if 'end' in s.env: return 'ends with ' + s.env['end']
        dec = s.env.get('dec', ()); rv = s.r['rax']
        if not isinstance(rv, int): return 'returns an unknown value'
        rv &= 0xffffffff
        if len(dec) != 1: return 'the answer does not rest on one comparison'
        (q, zero), = dec
        c = dict(q); es = {D.ex[m[0]]: k for m, k in c.items() if len(m) == 1 and m[0] in D.ex}
        if len(es) != 2 or len(c) != 2 or 1 not in es or sum(es.values()) % p: return 'the comparison is not one of x with a power of x'
        e = max(es)
        if (e - 1) % ((p - 1) // 2): return 'compares x with x^%d, which differs from x for some squares' % e
        if (rv != 0) != zero: return 'answers %d where the power is %s x' % (rv, 'equal to' if zero else 'different from')
        if rv:
            y = D.fp(tm, s, o); k = D.ex.get(list(y)[0][0]) if y and len(y) == 1 and list(y)[0] else None
            if k is None or y != D.pw(k) or 2 * k != e: return 'the root is not the power whose square was compared'
    r = hob(sc, 'Fp::squareRoot(%s)' % ('in place' if alias else 'x'), fin, chk)
    if len(fin) < 2: r['ok'] = False; r['detail'] += ' only one answer is possible'
    return [r]
def inv_list(): return [(inv_body, (a,)) for a in (0, 1)]
def c11_list():
    return [(inv_body, (a,)) for a in (0, 1)] + [(quotient, q) for q in (('h:Fp::inverse', 'z'), ('h:Fp::/', 'zxy'), ('h:Fp::/', 'zxx'), ('h:Fp::/', 'xxy'), ('h:Fp::/', 'yxy'), ('h:Fp::/=', 'zx'), ('h:Fp::/=', 'zz'))] + [(root, (a,)) for a in (0, 1)]
